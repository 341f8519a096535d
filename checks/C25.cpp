// flags: -O1
//# perceptron: every labelled data set with 1-4 samples x 1 feature and 2-3 samples x 2 features over small alphabets (4 x 2 in thorough), intercept on/off, batch sizes dividing n, separable ones trained under every sample order of the first one or two epochs (n <= 4) and numbered streams; patterned sets up to 12x4; queries, one-row batches, verbose on/off, refit sequences
//# a sample without any feature value has the margin 0 and the label 0 when there is no intercept
//! separation is demanded where the squared relative margin is at least 1/12 (the perceptron mistake bound for 30 epochs at the halving rate); a rate of 1000 makes the random start weights negligible
//# training with an intercept equals training without it on data with a column of ones, 7 x 4 shapes, scales 1e-3..1e6, three offsets, every solver
#include "core.hpp"
#include "methods/linear_model/perceptron.hpp"
using namespace openml;
namespace {
typedef linear_model::Perceptron<double> PC; using S = std::string; using Z = std::size_t;
Mat design(const Mat& X, bool ic) { Mat A(X.rows(), X.cols() + ic); A.leftCols(X.cols()) = X; if (ic) A.col(X.cols()).setOnes(); return A; }
double margin2(const Mat& A, const Vec& y) { long f = A.cols(); if (f > 4) { Vec u = Vec::Ones(f); double b = 1e300; for (long i = 0; i < y.size(); ++i) b = std::min(b, (y(i) < 0.5 ? -1 : 1) * A.row(i).dot(u) / u.norm()); double R = A.rowwise().norm().maxCoeff(); return b <= 0 ? 0 : b * b / (R * R); } int K = f <= 2 ? 12 : f == 3 ? 6 : 3; double best = -1; std::vector<int> c(f, -K); Mat B = A; for (long i = 0; i < y.size(); ++i) if (y(i) < 0.5) B.row(i) *= -1; while (true) { Vec u(f); for (long j = 0; j < f; ++j) u(j) = c[j]; double n = u.norm(); if (n > 0) best = std::max(best, (B * u).minCoeff() / n); long j = 0; while (j < f && ++c[j] > K) c[j++] = -K; if (j == f) break; } if (best <= 0) return 0; double R = A.rowwise().norm().maxCoeff(); return best * best / (R * R); }
void consistent(const PC& m, const Mat& X, bool ic, const S& h) { Vec w = m.get_coef(); MC_CHECK(w.size() == X.cols() + ic && mc::finite(w), h << ": coefficients " << mc::str(w)); long f = X.cols(); Mat Q(5, f); for (long j = 0; j < f; ++j) Q.col(j) << 0, 0.75 - j, -3 + 2 * j, 1e3, -1e6; for (const Mat& B : {Mat(X), Q, mc::tall(X, Q), Mat(Q.row(1)), Mat(Q.row(4)), Mat(X.row(0))}) { const Mat B0 = B; Vec l = m.predict(B); mc::step(); MC_CHECK(B == B0, h << ": predict modified its data"); MC_CHECK(l.size() == B.rows(), h << ": " << l.size() << " labels for " << B.rows() << " samples"); Vec z = design(B, ic) * w; for (long i = 0; i < B.rows(); ++i) { MC_CHECK(l(i) == 0 || l(i) == 1, h << ": label " << l(i)); if (std::fabs(z(i)) > 1e-9 * w.cwiseAbs().maxCoeff() || (!ic && B.row(i).isZero(0))) MC_CHECK(l(i) == (z(i) > 0), h << ": labels " << mc::str(B.row(i)) << " as " << l(i) << " although its margin is " << z(i)); } mc::validated(B.rows()); } MC_CHECK(m.get_coef() == w, h << ": predict changed the coefficients"); }
void train(PC& m, const Mat& X, const Vec& y, bool ic, const S& who, bool must) { S h = who + " on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); consistent(m, X, ic, h); if (must) { Vec l = m.predict(X); MC_CHECK(l == y, h << ": labels the separable training data " << mc::str(l) << " with coefficients " << mc::str(m.get_coef())); mc::validated(); } }
}
MC_SCENARIO(separable, 4) {
  static const double U[] = {-1, 0, 2}, V[] = {-1, 1, 2}; static const int N[] = {1, 2, 3, 4, 2, 3, 4}; int s = mc::choose(mc::thorough() ? 7 : 6, "shape"), n = N[s], f = s < 4 ? 1 : 2; bool ic = mc::choose(2, "intercept"); int c = mc::choose(1 << n, "labels"), b = mc::choose(3, "batch"); Z bs = b == 0 ? 1 : b == 1 ? n : 2; if ((b && n == 1) || (b == 2 && n != 4)) mc::prune(); if (bs > 3) mc::prune(); int st = mc::choose(2, "orders"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) y(i) = c >> i & 1; for (int i = 0; i < n * f; ++i) X.data()[i] = f == 1 ? mc::pick(U) : mc::pick(V); if (margin2(design(X, ic), y) < 1.0 / 12) mc::prune(); mc::state(X, y, ic, bs); if (st) mc::env_enumerate(n < 4 && f == 1 ? 2 : 1); else mc::env_stream(n + c); mc::Dirty<PC> m(0xA5, 1000.0, 0.0, 1e-4, bs, (Z)400, (Z)30, S("None"), ic, true, c == 1); train(*m, X, y, ic, "perceptron(batch " + mc::num(bs) + (ic ? ", intercept)" : ")"), true);
}
MC_SCENARIO(any_data, 3) { // every data set, separable or not: consistent or a reported failure
  static const double U[] = {-1, 0, 2}; int n = 1 + mc::choose(3, "n"); bool ic = mc::choose(2, "intercept"); int c = mc::choose(1 << n, "labels"); Z b = 1 + mc::choose(3, "batch"); Mat X(n, 1); Vec y(n); for (int i = 0; i < n; ++i) { X(i, 0) = mc::pick(U); y(i) = c >> i & 1; } double a = mc::choose(2, "rate") ? 0.001 : 5, l = mc::choose(2, "penalty") ? 0.3 : 0; mc::state(X, y, ic, b, a, l); mc::env_stream(b); PC m(a, l, 1e-3, b, 60, 5, l ? "l2" : "None", ic, true, false); S h = "perceptron on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); const Mat X0 = X; bool t = mc::throws([&] { m.fit(X, y); }); MC_CHECK(X == X0, h << " modified its data"); mc::step(); if (!t) consistent(m, X, ic, h); PC q(a, l, 1e-3, b, 3, 9, "None", ic, true, false); MC_CHECK(mc::throws([&] { q.fit(X, y); }), h << ": an epoch budget below the patience is accepted"); mc::validated(); }
MC_SCENARIO(larger, 3) { int n = mc::size(2, 12, {40, 100}, "n"), f = mc::size(1, 3, {8, 17}, "f"); bool ic = mc::choose(2, "intercept"); int k = mc::choose(3, "data"), st = mc::choose(3, "stream"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = std::sin(1 + 2.7 * i * (j + 1) + k); double z = X.row(i).sum() + (ic ? 0.4 * k : 0); y(i) = z > 0; for (int j = 0; j < f; ++j) X(i, j) += (z > 0 ? 0.9 : -0.9); } if (margin2(design(X, ic), y) < 1.0 / 12) mc::prune(); mc::state(X, y, ic); mc::env_stream(st + 1); PC m(1000, 0, 1e-4, 1, 500, 30, "None", ic, st > 0, st == 2); train(m, X, y, ic, "perceptron", true); }
MC_SCENARIO(history, 2) { bool ic = mc::choose(2, "intercept"); mc::choose(1); auto make = [&](bool i) { return PC(500, 0, 1e-4, 1, 400, 30, "None", i, true, false); }; PC a = make(ic), o = make(!ic), d; for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(ic, t, k); int n = 3 + k % 2, f = 1 + k / 2; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = (i + k) % 2; for (int j = 0; j < f; ++j) X(i, j) = (y(i) ? 1.0 : -1.0) * (k % 2 ? -1 : 1) * (1 + 0.3 * i + j) + 0.1 * j; } mc::env_stream(k + 1); train(a, X, y, ic, "refitted perceptron", true); Vec w = a.get_coef(); PC fresh = make(ic); mc::env_stream(k + 1); fresh.fit(X, y); MC_CHECK(mc::nearM(w, fresh.get_coef(), 1e-9), "a refitted perceptron has coefficients " << mc::str(w) << ", a fresh one " << mc::str(fresh.get_coef())); o.fit(X, y); MC_CHECK(a.get_coef() == w, "another perceptron changed the coefficients"); if (!mc::throws([&] { d.fit(X, y); })) consistent(d, X, true, "default perceptron"); mc::step(2); mc::validated(); } }
// an intercept is a column of ones: training with it is training without it on the data with that column
MC_SCENARIO(intercept_is_a_column, 2) {
  static const double SC[] = {1, 1e-3, 30, 1000, 1e6}; int n = mc::size(2, 6, {17, 40}, "n"), f = mc::size(1, 3, {8}, "f"), sv = mc::choose(1, "solver"), o = mc::choose(3, "offset"); double s = mc::pick(SC, "scale"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = s * (std::sin(1 + 2.7 * i * (j + 1) + o) + 3 * o); y(i) = i % 3 == 0 || i == 1; }
  mc::state(X, sv); MC_LOG(n << " " << f << " " << s << " " << o); Mat A = design(X, true); auto make = [&](bool ic) { return PC(0.5, 0.1, 1e300, (Z)(1 + n % 3), (Z)60, (Z)12, o == 1 ? "l2" : "None", ic, n % 2 == 0, false); }; auto a = make(true), b = make(false); mc::env_stream(n + o); bool ta = mc::throws([&] { a.fit(X, y); }); mc::env_stream(n + o); bool tb = mc::throws([&] { b.fit(A, y); }); mc::step(2); std::string h = "perceptron on X=" + mc::str(X) + " y=" + mc::str(y);
  MC_CHECK(ta == tb, h << ": training with an intercept " << (ta ? "fails" : "succeeds") << ", with a column of ones it does not"); if (ta) return; Mat u = a.get_coef(), v = b.get_coef(); MC_CHECK(mc::nearM(u, v, 1e-9), h << ": coefficients " << mc::str(u) << " with an intercept, " << mc::str(v) << " with a column of ones"); MC_CHECK(a.predict(X) == b.predict(A) && a.predict(2 * X) == b.predict(design(2 * X, true)), h << ": predictions with an intercept and with a column of ones differ"); mc::validated(2);
}
