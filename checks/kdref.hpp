// Brute-force reference for the k-d tree checks.
#pragma once
namespace kdref {
inline double dist(const Mat& X, long i, const Mat& Q, long q, const std::string& m) { double s = 0; for (long j = 0; j < X.cols(); ++j) { double d = std::fabs(X(i, j) - Q(q, j)); s = m == "chebyshev" ? std::max(s, d) : m == "manhattan" ? s + d : s + d * d; } return m == "euclidean" ? std::sqrt(s) : s; }
// integer data (distances exact): d = 0 spread, 1 duplicates and a constant column, 2 one dominating column, 3 two far clusters
inline Mat pattern(int n, int f, int d) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = d == 0 ? (i * (7 + 4 * j) + j * j) % 17 : d == 1 ? (j == f - 1 && f > 1 ? 5 : (i / (j + 2)) % 3) : d == 2 ? (j == f - 1 ? (i * i * 31) % 997 : (i * (j + 3)) % 4) : (i % 2 ? 100 : -100) + (i * (j + 5)) % 7 - 3; return X; }
inline Mat queries(const Mat& X) { int n = X.rows(), f = X.cols(); Mat Q(n + 5, f); Q.topRows(n) = X; Q.row(n) = X.colwise().minCoeff().array() - 2; Q.row(n + 1) = X.colwise().maxCoeff().array() + 3; Q.row(n + 2) = (X.row(0) + X.row(n - 1)) / 2; Q.row(n + 3) = X.row(n / 2); Q(n + 3, 0) += 1; Q.row(n + 4) = X.row(n / 2); Q(n + 4, f - 1) -= 1; return Q; }
static const char* const METRIC[] = {"euclidean", "manhattan", "chebyshev"};
}
