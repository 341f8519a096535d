// flags: -O1
//# cholesky, logdet and symmetric eigen-decomposition: every symmetric matrix up to 3x3 with diagonal over {1,2,5,-1} and off-diagonal over {-1,0,1,2}; every general matrix up to 2x2 over {-2..2} and 3x3 over {-1,0,1} for logdet; patterned positive definite matrices up to 24x24, also scaled by 1e-3 and 1e200
//# cholesky, logdet, eig of patterned positive definite matrices of order 33, 48, 65 (thorough also 100); logdet of patterned general matrices of order 4..12, 17, 33 with both determinant signs, scaled by 2^+-30, with rows permuted
#include "core.hpp"
using namespace openml;
namespace {
typedef long double LD;
// positive definiteness by exact elimination in long double (small integers): returns log det or NaN
bool spd(const Mat& X) { long n = X.rows(); for (long m = 1; m <= n; ++m) { if (!(X.topLeftCorner(m, m).determinant() > 1e-9)) return false; } return true; }
double ref_logdet(const Mat& X, double& sign) { long n = X.rows(); std::vector<std::vector<LD>> A(n, std::vector<LD>(n)); for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A[i][j] = X(i, j); LD l = 0; sign = 1; for (long k = 0; k < n; ++k) { long p = k; for (long i = k; i < n; ++i) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i; if (fabsl(A[p][k]) < 1e-15L) { sign = 0; return -INFINITY; } if (p != k) { std::swap(A[p], A[k]); sign = -sign; } if (A[k][k] < 0) sign = -sign; l += logl(fabsl(A[k][k])); for (long i = k + 1; i < n; ++i) { LD f = A[i][k] / A[k][k]; for (long j = k; j < n; ++j) A[i][j] -= f * A[k][j]; } } return l; }
void chol(const Mat& X, bool pd) {
  const Mat X0 = X; long n = X.rows(); MC_LOG("X=" << mc::str(X) << " spd " << pd); mc::state(X); double sc = X.cwiseAbs().maxCoeff();
  for (int lower = 0; lower < 2; ++lower) { Mat L; bool t = mc::throws([&] { L = math::cholesky<Mat>(X, lower); }); mc::step(); MC_CHECK(X == X0, "cholesky modified its input");
    if (!pd) { if (!t) continue; } else { MC_CHECK(!t, "cholesky rejected a positive definite matrix " << mc::str(X)); MC_CHECK(L.rows() == n && L.cols() == n, "cholesky shape");
      for (long i = 0; i < n; ++i) { MC_CHECK(L(i, i) > 0, "non-positive diagonal " << mc::str(L)); for (long j = 0; j < i; ++j) MC_CHECK((lower ? L(j, i) : L(i, j)) == 0, "cholesky(lower=" << lower << ") is not triangular: " << mc::str(L)); }
      Mat R = lower ? Mat(L * L.transpose()) : Mat(L.transpose() * L); MC_CHECK((R - X).cwiseAbs().maxCoeff() <= 1e-9 * sc, "cholesky factor of " << mc::str(X) << " multiplies to " << mc::str(R)); mc::validated(); } }
}
void ldet(const Mat& X) { const Mat X0 = X; double s, w = ref_logdet(X, s); double g = math::logdet<Mat>(X); mc::step(); MC_CHECK(X == X0, "logdet modified its input"); if (s > 0) MC_CHECK(mc::near(g, w, 1e-9), "logdet of " << mc::str(X) << " is " << g << " not " << w); else if (s < 0) MC_CHECK(g == -INFINITY, "logdet of " << mc::str(X) << " (negative determinant) is " << g); else MC_CHECK(g < -25, "logdet of singular " << mc::str(X) << " is " << g); mc::validated(); }
void eigsym(const Mat& X) { Mat l, v; std::tie(l, v) = math::eig<Mat>(X); mc::step(); long n = X.rows(); MC_CHECK(l.size() == n && v.rows() == n && v.cols() == n, "eig shapes"); double sc = std::max(1e-300, X.cwiseAbs().maxCoeff()); for (long k = 0; k < n; ++k) { Vec r = X * v.col(k) - l.data()[k] * v.col(k); MC_CHECK(v.col(k).norm() <= 1 + 1e-6 && r.norm() <= 1e-7 * sc, "eig of " << mc::str(X) << ": vector " << k << " is not an eigenvector"); } MC_CHECK(std::fabs(l.sum() - X.trace()) <= 1e-8 * sc * n, "eigenvalues of " << mc::str(X) << " do not sum to the trace"); mc::validated(); }
}
MC_SCENARIO(symmetric, 3) { static const double D[] = {1, 2, 5, -1}, O[] = {-1, 0, 1, 2}; int n = 1 + mc::choose(3, "n"); Mat X(n, n); for (int i = 0; i < n; ++i) X(i, i) = mc::pick(D, "d"); if (n == 1) mc::choose(1); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) X(i, j) = X(j, i) = mc::pick(O, "o"); chol(X, spd(X)); ldet(X); eigsym(X); }
MC_SCENARIO(general, 3) { int n = 1 + mc::choose(3, "n"); Mat X(n, n); if (n == 1) mc::choose(1); for (int i = 0; i < n * n; ++i) X.data()[i] = n == 3 ? mc::choose(mc::thorough() ? 4 : 3, "x") - 1 : mc::choose(5, "x") - 2; MC_LOG(mc::str(X)); mc::state(X); ldet(X); }
MC_SCENARIO(shapes, 2) { static const double S[] = {1, 1e-3, 1e200, 1e-200}; int n = 1 + mc::choose(24, "n"), k = mc::choose(3, "fill"); double s = mc::pick(S, "scale"); Mat A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = k == 0 ? (i == j ? 1 + i : 0) : k == 1 ? ((i * 7 + j * 3) % 5 - 2) : (i >= j ? 1 : 0.5); Mat X = s * (A * A.transpose() + Mat::Identity(n, n)); X = (0.5 * (X + X.transpose())).eval(); chol(X, true); if (s == 1 || s == 1e-3) { ldet(X); eigsym(X); } else { double sg, w = ref_logdet(X / s, sg) + n * std::log(s), g = math::logdet<Mat>(X); MC_CHECK(mc::near(g, w, 1e-9), "logdet of a " << n << "x" << n << " matrix scaled by " << s << " is " << g << " not " << w); mc::step(); mc::validated(); } }
MC_SCENARIO(larger, 2) { int n = mc::thorough() ? mc::size(33, 33, {48, 65, 100}, "n") : mc::size(33, 33, {48, 65}, "n"), k = mc::choose(3, "fill"); static const double S[] = {1, 0x1p-10, 0x1p20}; double s = mc::pick(S, "scale"); Mat A(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = k == 0 ? (i == j ? 1 + i % 7 : 0) : k == 1 ? ((i * 7 + j * 3) % 5 - 2) : (i >= j ? 0.25 : 0.125); Mat X = s * (A * A.transpose() + Mat::Identity(n, n)); X = (0.5 * (X + X.transpose())).eval(); chol(X, true); ldet(X); eigsym(X); }
MC_SCENARIO(general_shapes, 2) { static const int E[] = {0, -30, 30}; int n = mc::size(4, 12, {17, 33}, "n"), k = mc::choose(3, "fill"), sw = mc::choose(3, "row swaps"); double s = std::ldexp(1.0, E[mc::choose(3, "scale")]); Mat X(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) X(i, j) = k == 0 ? (i == j ? (i % 3 ? 6 : -6) : 0) + ((i * 7 + j * 3) % 5 - 2) * 0.5 : k == 1 ? (i == (j + 1) % n ? 3 + i : 0) + (i == j ? 0.5 : 0) : (i + j == n - 1 ? 5 : ((i * 3 + j) % 4) * 0.25); for (int i = 0; i < sw; ++i) X.row(i).swap(X.row(n - 1 - i)); MC_LOG(mc::str(X) << " * " << s); mc::state(X, s); double sg, w = ref_logdet(X, sg) + n * std::log(s); Mat Y = s * X; const Mat Y0 = Y; double g = math::logdet<Mat>(Y); mc::step(); MC_CHECK(Y == Y0, "logdet modified its input"); if (sg > 0) MC_CHECK(mc::near(g, w, 1e-9), "logdet of " << mc::str(Y) << " is " << g << " not " << w); else if (sg < 0) MC_CHECK(g == -INFINITY, "logdet of " << mc::str(Y) << " (negative determinant) is " << g); mc::validated(); }
