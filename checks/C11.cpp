// flags: -O1
//# randomized_svd: every 2x2, 2x3 and 3x2 matrix over {-1,0,2} with every outcome of the sketch (menu of three values per entry) for a sketch of 1 or (2x2 only) 2 columns, 0-2 power iterations, all three normalisers; every rank <= k product of integer factors up to 4x4 (k <= 2) and every shape up to 10x10 with four fillings against the exact SVD, k and p over all allowed values (thorough: more factors), two independent random streams
//# TruncatedSVD: all of that through fit/transform with histories of one refit, new data transformed in all row orders
//# randomized_svd of every shape out of 12, 17, 33, 70 squared x 5 fillings (constant, rank 1, rank 2, two of full rank) x k in 1, 2, 5, 9 x p in 0, 2, all remaining x 0..4 iterations x 3 normalisers; shapes out of 2..4, 9 squared scaled by 2^+-40; TruncatedSVD on 33 x 9, 70 x 17, 9 x 33 with k up to 9 and k + p up to the full rank, and scaled by 2^+-20; default arguments
//! the sketch is in general position (exact recovery is only required on numbered streams, or when the enumerated sketch captures the range)
//# spectra falling slowly over 30 and 60 columns with 0..16 QR- and 0..10 LU-normalised power iterations, 4 streams: the error of the leading values falls at the rate of the iteration
#include "core.hpp"
#include "methods/decomposition/truncated_svd.hpp"
using namespace openml;
namespace {
const char* NORM[] = {"LU", "QR", "None"};
Vec sv(const Mat& X) { return Eigen::JacobiSVD<Mat>(X).singularValues(); }
void factors(const Mat& X, const Mat& U, const Vec& s, const Mat& Vt, long k, bool exact, const std::string& what) {
  double sc = X.cwiseAbs().maxCoeff() * std::max(X.rows(), X.cols()); if (sc == 0) sc = 1;
  MC_CHECK(U.rows() == X.rows() && U.cols() == k && s.size() == k && Vt.rows() == k && Vt.cols() == X.cols(), what << " shapes U " << U.rows() << "x" << U.cols() << " s " << s.size() << " Vt " << Vt.rows() << "x" << Vt.cols());
  MC_CHECK((U.transpose() * U - Mat::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-8, what << " left vectors not orthonormal " << mc::str(U));
  MC_CHECK((Vt * Vt.transpose() - Mat::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-8, what << " right vectors not orthonormal " << mc::str(Vt));
  Vec t = sv(X);
  for (long i = 0; i < k; ++i) { MC_CHECK(s(i) >= 0 && (i == 0 || s(i) <= s(i - 1)), what << " singular values not descending and non-negative " << mc::str(s)); MC_CHECK(s(i) <= t(i) + 1e-8 * sc, what << " singular value " << s(i) << " above the true " << t(i)); if (exact) MC_CHECK(std::fabs(s(i) - t(i)) <= 1e-6 * sc, what << " singular values " << mc::str(s) << " true " << mc::str(t)); }
  Mat L = U.transpose() * X, R = s.asDiagonal() * Vt; MC_CHECK((L - R).cwiseAbs().maxCoeff() <= 1e-7 * sc, what << " factors do not belong together");
  if (exact) { Mat D = U * R - X; double rest = 0; for (long i = k; i < t.size(); ++i) rest += t(i) * t(i); MC_CHECK(std::fabs(D.norm() - std::sqrt(rest)) <= 1e-6 * sc, what << " does not reproduce X (error " << D.norm() << ", optimum " << std::sqrt(rest) << ")"); }
  mc::validated();
}
void rsvd(const Mat& X, int k, int p, int it, const char* nm, bool exact, bool flip) {
  const Mat X0 = X; Mat U, Vt; Vec s; std::tie(U, s, Vt) = math::randomized_svd<Mat, Vec, IVec>(X, k, p, it, nm, flip); mc::step();
  MC_CHECK(X == X0, "randomized_svd modified its input");
  std::ostringstream w; w << "randomized_svd(k=" << k << ",p=" << p << ",iters=" << it << "," << nm << ") of " << mc::str(X); factors(X, U, s, Vt, k, exact, w.str());
  if (flip) for (long j = 0; j < k; ++j) { double m = U.col(j).cwiseAbs().maxCoeff(), q = U.col(j).maxCoeff(); MC_CHECK(q >= m - 1e-9, w.str() << ": largest entry of left vector " << j << " is negative " << mc::str(U)); }
}
Mat pattern(int r, int c, int f) { Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = f == 0 ? 2 : f == 1 ? (i + 1) * (j - 2.0) : f == 2 ? (i == j ? 6 + i : 0) + ((i * 7 + j * 3) % 5 - 2) : ((i * i * 3 + j * 5 + i * j) % 11) - 4; return X; }
}
MC_SCENARIO(draws, 4) {
  static const double V[] = {-1, 0, 2}; int sh = mc::choose(3, "shape"), r = sh == 1 ? 3 : 2, c = sh == 2 ? 3 : 2, nr = 1 + mc::choose(sh == 0 ? 2 : 1, "k+p"); Mat X(r, c); for (int i = 0; i < r * c; ++i) X.data()[i] = mc::pick(V, "x");
  int k = 1 + mc::choose(nr, "k"), it = mc::choose(nr == 2 && !mc::thorough() ? 2 : 3, "iters"); const char* nm = it ? NORM[mc::choose(3, "norm")] : "LU"; mc::state(X, k, it, nm); mc::env_enumerate();
  rsvd(X, k, nr - k, it, nm, false, true);
}
MC_SCENARIO(low_rank, 4) {
  int r = 1 + mc::choose(4, "r"), c = 1 + mc::choose(4, "c"), m = std::min(r, c), k = 1 + mc::choose(std::min(m, 2), "k"), p = mc::choose(m - k + 1, "p"), q = (r + c) * k;
  bool t = mc::thorough(); if (q > (t ? 12 : 10)) mc::prune(); Mat A(r, k), B(k, c); int al = q > 8 ? 2 : 3; for (int i = 0; i < A.size(); ++i) A.data()[i] = mc::choose(al, "a") - (al == 3); for (int i = 0; i < B.size(); ++i) B.data()[i] = mc::choose(al, "b") * (al == 2 ? 2 : 1) - 1;
  Mat X = A * B; MC_LOG(mc::str(X)); int o = mc::choose(t ? 12 : 4, "option"), it = o % 4 == 0 ? 0 : o % 4 == 3 ? 3 : 2; mc::state(X, k, p, o); mc::env_stream(7 + o / 4); rsvd(X, k, p, it, NORM[(o + r) % 3], true, o % 2);
}
MC_SCENARIO(shapes, 3) {
  int r = 1 + mc::choose(10, "r"), c = 1 + mc::choose(10, "c"), f = mc::choose(4, "fill"); Mat X = pattern(r, c, f); int m = std::min(r, c), k = 1 + mc::choose(m, "k"), p = mc::choose(m - k + 1, "p"), it = mc::choose(4, "iters"); const char* nm = NORM[mc::choose(it ? 3 : 1, "norm")]; mc::state(X, k, p, it, nm);
  bool exact = k + p == m || f == 0 || f == 1; mc::env_stream(3 + it); rsvd(X, k, p, it, nm, exact, true);
  if (p == 0 && it == 1) { MC_CHECK(mc::throws([&] { math::randomized_svd<Mat, Vec, IVec>(X, k, m - k + 1, it, nm); }), "k + p above min(m,n) accepted for " << r << "x" << c); MC_CHECK(mc::throws([&] { math::randomized_svd<Mat, Vec, IVec>(X, k, p, it, "qr?"); }), "unknown normaliser accepted"); mc::step(2); }
}
namespace {
void tsvd_check(const decomposition::TruncatedSVD<double>& m, const Mat& X, int k, bool exact, const std::string& h) {
  Mat C = m.get_components(); MC_CHECK(C.rows() == k && C.cols() == X.cols(), h << " components " << mc::str(C)); MC_CHECK((C * C.transpose() - Mat::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-8, h << " component rows not orthonormal " << mc::str(C));
  Vec s = m.get_singular_values(), t = sv(X); MC_CHECK(s.size() == k, h << " singular values " << mc::str(s)); for (int i = 0; i < k; ++i) { MC_CHECK(s(i) >= 0 && (!i || s(i) <= s(i - 1)) && s(i) <= t(i) + 1e-6, h << " singular values " << mc::str(s)); if (exact) MC_CHECK(mc::near(s(i), t(i), 1e-6), h << " singular values " << mc::str(s) << " true " << mc::str(t)); }
  Mat Z = X * C.transpose(), Y = m.transform(X); MC_CHECK(mc::nearM(Y, Z, 1e-9), h << " transform of the training data " << mc::str(Y) << " is not its projection " << mc::str(Z));
  if (exact) for (int i = 0; i < k; ++i) MC_CHECK(mc::near(Z.col(i).norm(), s(i), 1e-6), h << " component " << i << " does not belong to singular value " << s(i));
  Vec ev = m.get_explained_var(), er = m.get_explained_var_ratio(); MC_CHECK(ev.size() == k && er.size() == k, h << " explained variance sizes"); double tot = 0; for (long j = 0; j < X.cols(); ++j) tot += (X.col(j).array() - X.col(j).mean()).square().mean();
  for (int i = 0; i < k; ++i) { double v = (Z.col(i).array() - Z.col(i).mean()).square().mean(); MC_CHECK(mc::near(ev(i), v, 1e-8), h << " explained variance " << mc::str(ev) << " entry " << i << " should be " << v); if (tot > 1e-9) MC_CHECK(mc::near(er(i), v / tot, 1e-8), h << " explained variance ratio " << mc::str(er)); }
  Mat N(3, X.cols()); for (int i = 0; i < 3; ++i) for (long j = 0; j < X.cols(); ++j) N(i, j) = 5 + i * (j + 1) - 3 * i * i; const Mat N0 = N; Mat T = m.transform(N); MC_CHECK(N == N0, h << " transform modified its input"); MC_CHECK(mc::nearM(T, Mat(N * C.transpose()), 1e-9), h << " transform of new data " << mc::str(T)); for (int i = 0; i < 3; ++i) { Mat one = m.transform(N.row(i)); MC_CHECK(mc::nearM(one, T.row(i), 1e-9), h << " transform of one row differs from the batch"); } MC_CHECK(m.transform(N) == T && m.get_components() == C, h << " transform changed the model"); mc::step(6); mc::validated();
}
}
MC_SCENARIO(transformer, 4) {
  int n1 = mc::choose(3, "shape1"), n2 = mc::choose(4, "shape2"), f1 = mc::choose(4, "fill1"), f2 = mc::choose(4, "fill2"); static const int R[] = {4, 6, 3}, Cc[] = {3, 4, 5}; int k = 1 + mc::choose(3, "k"), o = mc::choose(3, "norm"), it = mc::choose(3, "iters"); Mat A = pattern(R[n1], Cc[n1], f1), B = n2 < 3 ? pattern(R[n2], Cc[n2], f2) : A; if (n2 == 3 && f2) mc::prune(); mc::env_stream(11);
  int p = mc::choose(2, "p") ? 3 - k : 0; decomposition::TruncatedSVD<double> m(k, p, it, "randomized", NORM[o]); std::ostringstream h; h << "TruncatedSVD(k=" << k << ",p=" << p << ",iters=" << it << "," << NORM[o] << ")"; const Mat A0 = A, B0 = B; mc::state(A, B, k, p, it, o);
  m.fit(A); MC_CHECK(A == A0, "fit modified its input"); tsvd_check(m, A, k, f1 < 2 || k + p == std::min(A.rows(), A.cols()), h.str() + " on " + mc::str(A)); if (n2 == 3) return; m.fit(B); MC_CHECK(B == B0, "fit modified its input"); tsvd_check(m, B, k, f2 < 2 || k + p == std::min(B.rows(), B.cols()), h.str() + " refitted on " + mc::str(B));
  if (f2 >= 2 && it == 0) { mc::env_stream(11); decomposition::TruncatedSVD<double> a(k, p, it, "randomized", NORM[o]); a.fit(B); mc::env_stream(12); decomposition::TruncatedSVD<double> b(k, p, it, "randomized", NORM[o]); b.fit(B); tsvd_check(a, B, k, false, "first of two"); tsvd_check(b, B, k, false, "second of two"); }
}
namespace { Mat pattern2(int r, int c, int f) { if (f < 4) return pattern(r, c, f); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = (i % 7 + 1) * (j % 5 - 2.0) + (i % 2) * 3; return X; } }
MC_SCENARIO(larger, 3) {
  static const int N[] = {12, 17, 33, 70}, K[] = {1, 2, 5, 9}; int r = mc::pick(N, "r"), c = mc::pick(N, "c"), f = mc::choose(5, "fill"), k = mc::pick(K, "k"), m = std::min(r, c), ps = mc::choose(3, "p"), p = ps == 0 ? 0 : ps == 1 ? 2 : m - k, it = mc::choose(mc::thorough() ? 5 : 3, "iters"); const char* nm = NORM[mc::choose(it ? 3 : 1, "norm")]; mc::state(r, c, f, k, p, it, nm); bool exact = k + p == m || f < 2 || (f == 4 && k + p >= 2); if (f == 2 && it > 3 && nm[0] == 'N') mc::prune(); mc::env_stream(31 + it); rsvd(pattern2(r, c, f), k, p, it, nm, exact, true);
}
MC_SCENARIO(scaled, 3) { static const int E[] = {-40, 40}; int r = mc::size(2, 4, {9}, "r"), c = mc::size(2, 4, {9}, "c"), f = mc::choose(5, "fill"), m = std::min(r, c), k = 1 + mc::choose(std::min(m, 3), "k"), p = mc::choose(2, "p") ? m - k : 0, it = mc::choose(3, "iters"); const char* nm = NORM[mc::choose(it ? 3 : 1, "norm")]; double s = std::ldexp(1.0, E[mc::choose(2, "scale")]); mc::state(r, c, f, k, p, it, nm, s); mc::env_stream(5 + it); rsvd(s * pattern2(r, c, f), k, p, it, nm, k + p == m || f < 2 || (f == 4 && k >= 2), true); }
MC_SCENARIO(defaults, 2) { int r = mc::size(13, 14, {20}, "r"), c = mc::size(13, 15, {}, "c"), f = mc::choose(5, "fill"); Mat X = pattern2(r, c, f), U, V, u, v; Vec s, t; mc::state(X); MC_LOG(mc::str(X)); mc::env_stream(9); std::tie(U, s, V) = math::randomized_svd<Mat, Vec, IVec>(X); mc::env_stream(9); std::tie(u, t, v) = math::randomized_svd<Mat, Vec, IVec>(X, 3, 10, 4, "LU", true); mc::step(2); MC_CHECK(mc::nearM(Mat(s), Mat(t), 1e-9) && U.cols() == 3 && mc::nearM(Mat(U * s.asDiagonal() * V), Mat(u * t.asDiagonal() * v), 1e-7), "default arguments of randomized_svd are not (3, 10, 4, LU, true)"); factors(X, U, s, V, 3, c == 13 || r == 13 || f < 2 || f == 4, "randomized_svd with defaults of " + mc::str(X)); }
MC_SCENARIO(transformer_larger, 3) {
  static const int R[] = {33, 70, 9}, Cc[] = {9, 17, 33}, E[] = {0, -20, 20}; int z = mc::choose(3, "shape"), f = mc::choose(5, "fill"), k = mc::size(1, 3, {9}, "k"), it = mc::choose(3, "iters"), o = mc::choose(3, "norm"); double s = std::ldexp(1.0, E[mc::choose(3, "scale")]); int m = std::min(R[z], Cc[z]), p = mc::choose(2, "p") ? m - k : 0; Mat X = pattern2(R[z], Cc[z], f); mc::env_stream(13); bool exact = k + p == m || f < 2 || (f == 4 && k >= 2); mc::state(X, k, p, it, o, s);
  decomposition::TruncatedSVD<double> a(k, p, it, "randomized", NORM[o]), b(k, p, it, "randomized", NORM[o]); a.fit(X); std::ostringstream h; h << "TruncatedSVD(k=" << k << ",p=" << p << ",iters=" << it << "," << NORM[o] << ") on " << mc::str(X); tsvd_check(a, X, k, exact, h.str()); if (s == 1) return;
  mc::env_stream(13); Mat Y = s * X; b.fit(Y); Mat C = b.get_components(); Vec sa = a.get_singular_values(), sb = b.get_singular_values(), va = a.get_explained_var(), vb = b.get_explained_var(), ra = a.get_explained_var_ratio(), rb = b.get_explained_var_ratio(); MC_CHECK((C * C.transpose() - Mat::Identity(k, k)).cwiseAbs().maxCoeff() < 1e-8, h.str() << " scaled by " << s << " components not orthonormal " << mc::str(C));
  Mat Z = Y * C.transpose(), T = b.transform(Y); MC_CHECK(mc::finite(T) && (T - Z).cwiseAbs().maxCoeff() <= 1e-9 * Y.cwiseAbs().maxCoeff(), h.str() << " scaled by " << s << " transform is not the projection"); double tot = 0; for (long j = 0; j < Y.cols(); ++j) tot += (Y.col(j).array() - Y.col(j).mean()).square().mean();
  double S = sa.maxCoeff(); for (int i = 0; i < k; ++i) { double v = (Z.col(i).array() - Z.col(i).mean()).square().mean(); MC_CHECK(std::fabs(vb(i) - v) <= 1e-8 * s * s * (1 + S * S), h.str() << " scaled by " << s << " explained variance " << mc::str(vb) << " entry " << i << " should be " << v); if (tot > 1e-9 * s * s) MC_CHECK(mc::near(rb(i), v / tot, 1e-8), h.str() << " scaled by " << s << " ratios " << mc::str(rb)); if (exact) MC_CHECK(std::fabs(sb(i) - s * sa(i)) <= 1e-6 * s * (1 + S), h.str() << " scaled by " << s << " singular values " << mc::str(sb) << " unscaled " << mc::str(sa)); } mc::step(3); mc::validated();
}
MC_SCENARIO(transformer_refit_copy, 2) { int f = 2 + mc::choose(3, "fill"), g = mc::choose(5, "fill2"), k = 1 + mc::choose(3, "k"), how = mc::choose(3, "how"); Mat A = pattern2(9, 4, f), B = pattern2(7, 5, g); mc::state(f, g, k, how); MC_LOG(f << g << k << how); mc::env_stream(4); typedef decomposition::TruncatedSVD<double> T; T m(k, 4 - k, 2, "randomized", "QR"); m.fit(A); T c(m); if (how == 0) m.fit(B); else if (how == 1) { T d(1, 1, 1, "randomized", "LU"); d.fit(B); d = m; c = d; m.fit(B); } else m.transform(B.leftCols(4)); tsvd_check(c, A, k, k + 4 - k == 4, "a copy of a TruncatedSVD fitted on " + mc::str(A)); }
MC_SCENARIO(convergence, 2) { // each iteration multiplies the error of the leading value by (s_{k+p+1} / s_1)^4, up to a modest factor of the sketch
  int it = mc::choose(17, "iters"), o = mc::choose(2, "norm"), st = mc::choose(4, "stream"), k = 1 + mc::choose(2, "k"), p = 2 * mc::choose(2, "p") + 2, w = mc::choose(2, "shape"); if (o == 0 && it > 10) mc::prune(); int n = w ? 60 : 30; double de = w ? 0.06 : 0.15; Mat X(n, n); Vec s(n); for (int i = 0; i < n; ++i) s(i) = 1.0 / (1 + de * i); Mat A(n, n), B(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = std::sin(1.3 * i * j + 0.7 * i + j); B(i, j) = std::cos(0.9 * i * j + i + 2.3 * j); } Mat U = Eigen::HouseholderQR<Mat>(A).householderQ(), V = Eigen::HouseholderQR<Mat>(B).householderQ(); X = U * s.asDiagonal() * V.transpose(); mc::state(it, o, st, k, p, w); mc::env_stream(st + 40); Mat P, R; Vec t; std::tie(P, t, R) = math::randomized_svd<Mat, Vec, IVec>(X, k, p, it, o ? "QR" : "LU"); mc::step(); std::ostringstream h; h << "randomized_svd(k=" << k << ",p=" << p << ",iters=" << it << "," << (o ? "QR" : "LU") << ") of a " << n << "x" << n << " matrix of slowly falling singular values"; MC_LOG(h.str()); factors(X, P, t, R, k, false, h.str());
  for (int i = 0; i < k; ++i) { double r = s(k + p) / s(i), bound = 60.0 * n * std::pow(r, 4 * it); if (bound < 0.5) MC_CHECK(t(i) >= s(i) * (1 - bound), h.str() << ": singular value " << i << " is " << t(i) << " instead of " << s(i) << ", after that many iterations the error is below " << bound); } mc::validated(); }
