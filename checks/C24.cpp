// flags: -O1
//# logistic regression with SGD, SAG, L-BFGS (both line searches, three conditions) and coordinate descent: every two-class data set with 2-4 samples x 1 feature over {-1,0,2} and 2x2, 3x2 over {-1,1,2}, all label vectors; penalties none/l2/l1 at three strengths; minimisers compared with a Newton / proximal reference; separable data labelled correctly by every solver; queries up to 1e6 in magnitude and one-row batches; shuffles enumerated for the first epochs (n <= 3); refit sequences
//! the starting weights come from a numbered random stream; the l2 optimum is demanded for full batches, where the step sizes are small enough for the descent lemma and the penalty makes the problem well conditioned
//# training twice on data with the same number of features, five data sets each, every solver, short budgets: the second result is that of a fresh object
//# L-BFGS options: gradient tolerance, sufficient decrease, relative decrease, curvature, iterations, memory, window, trials, policy and condition in all combinations of two or three values: the weights are those of the optimiser run with these options from the same start
#include "core.hpp"
#include "methods/linear_model/logistic_regression.hpp"
using namespace openml;
namespace {
typedef linear_model::LogisticRegression<double> LR; using S = std::string; using Z = std::size_t;
Mat design(const Mat& X) { Mat A(X.rows(), X.cols() + 1); A.leftCols(X.cols()) = X; A.col(X.cols()).setOnes(); return A; }
double sg(double z) { return z >= 0 ? 1 / (1 + std::exp(-z)) : std::exp(z) / (1 + std::exp(z)); }
double nll(const Mat& A, const Vec& y, const Vec& w) { Vec z = A * w; double s = 0; for (long i = 0; i < z.size(); ++i) s += std::max(z(i), 0.0) - y(i) * z(i) + std::log1p(std::exp(-std::fabs(z(i)))); return s / z.size(); }
Vec grad(const Mat& A, const Vec& y, const Vec& w) { Vec z = A * w; for (long i = 0; i < z.size(); ++i) z(i) = sg(z(i)) - y(i); return A.transpose() * z / (double)A.rows(); }
// minimiser of loss + l2/2 |w|^2 (damped Newton)
Vec newton(const Mat& A, const Vec& y, double l2) { Vec w = Vec::Zero(A.cols()); for (int it = 0; it < 200; ++it) { Vec g = grad(A, y, w) + l2 * w, z = A * w; Mat H = l2 * Mat::Identity(w.size(), w.size()); for (long i = 0; i < z.size(); ++i) { double s = sg(z(i)); H += s * (1 - s) / A.rows() * A.row(i).transpose() * A.row(i); } if (g.norm() < 1e-13) break; Vec d = -(H + 1e-14 * Mat::Identity(w.size(), w.size())).ldlt().solve(g); double t = 1, f0 = nll(A, y, w) + l2 / 2 * w.squaredNorm(); while (t > 1e-10) { Vec u = w + t * d; if (nll(A, y, u) + l2 / 2 * u.squaredNorm() <= f0 + 1e-4 * t * g.dot(d)) break; t /= 2; } if (t <= 1e-10) break; w += t * d; } return w; }
Vec prox(const Mat& A, const Vec& y, double l1) { double L = A.squaredNorm() / A.rows() / 4 + 1e-9; Vec w = Vec::Zero(A.cols()); for (int it = 0; it < 40000; ++it) { Vec u = w - grad(A, y, w) / L; for (long j = 0; j < u.size(); ++j) u(j) = u(j) > l1 / L ? u(j) - l1 / L : u(j) < -l1 / L ? u(j) + l1 / L : 0; double d = (u - w).norm(); w = u; if (d < 1e-12) break; } return w; }
// linearly separable with margin (relative to the data) at least m: searched over a grid of directions
double margin(const Mat& A, const Vec& y) { long f = A.cols(); double best = -1; int K = 6; std::vector<int> c(f, -K); while (true) { Vec u(f); for (long j = 0; j < f; ++j) u(j) = c[j]; if (u.norm() > 0) { Vec z = A * u / u.norm(); double m = 1e300; for (long i = 0; i < z.size(); ++i) m = std::min(m, y(i) > 0.5 ? z(i) : -z(i)); best = std::max(best, m); } long j = 0; while (j < f && ++c[j] > K) c[j++] = -K; if (j == f) break; } return best / std::max(1e-300, A.rowwise().norm().maxCoeff()); }
void consistent(const LR& m, const Mat& X, const S& h) {
  Vec w = m.get_coef(); MC_CHECK(w.size() == X.cols() + 1 && mc::finite(w), h << ": coefficients " << mc::str(w)); long f = X.cols(); Mat Q(6, f); for (long j = 0; j < f; ++j) Q.col(j) << 0, 0.75 - j, -3 + 2 * j, 1e3, -1e6, 40 * (j ? -1 : 1);
  for (const Mat& B : {Mat(X), Q, mc::tall(X, Q), Mat(Q.row(1)), Mat(Q.row(4)), Mat(X.row(0))}) { const Mat B0 = B; Mat p = m.predict_prob(B); Vec l = m.predict(B); mc::step(2); MC_CHECK(B == B0, h << ": prediction modified its data"); MC_CHECK(p.rows() == B.rows() && p.cols() == 2 && l.size() == B.rows(), h << ": prediction has shape " << mc::str(p) << " / " << mc::str(l) << " for " << B.rows() << " samples"); Vec z = design(B) * w;
    for (long i = 0; i < B.rows(); ++i) { double s = sg(z(i)); MC_CHECK(mc::near(p(i, 1), s, 1e-9) && mc::near(p(i, 0) + p(i, 1), 1, 1e-12) && p(i, 0) >= 0 && p(i, 1) >= 0, h << ": probabilities " << mc::str(p.row(i)) << " for sample " << mc::str(B.row(i)) << " with coefficients " << mc::str(w) << ", P(1) should be " << s); MC_CHECK(l(i) == 0 || l(i) == 1, h << ": label " << l(i)); if (std::fabs(z(i)) > 1e-9) MC_CHECK(l(i) == (z(i) > 0), h << ": label " << l(i) << " for sample " << mc::str(B.row(i)) << " with margin " << z(i)); } mc::validated(B.rows()); }
}
S desc(const S& who, const Mat& X, const Vec& y) { S s = who + " on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(s); return s; }
void fit(LR& m, const Mat& X, const Vec& y, const S& h) { const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); consistent(m, X, h); }
void separates(const LR& m, const Mat& X, const Vec& y, double need, const S& h) { if (margin(design(X), y) < need) return; Vec l = m.predict(X); MC_CHECK(l == y, h << ": labels the separable training data " << mc::str(l) << " with coefficients " << mc::str(m.get_coef())); mc::validated(); }
struct Data { Mat X; Vec y; };
Data gen() { static const double U[] = {-1, 0, 2}, V[] = {-1, 1, 2}; int s = mc::choose(5, "shape"); static const int N[] = {2, 3, 4, 2, 3}; int n = N[s], f = s < 3 ? 1 : 2, c = mc::choose(1 << n, "labels"); Data d{Mat(n, f), Vec(n)}; for (int i = 0; i < n; ++i) d.y(i) = c >> i & 1; for (int i = 0; i < n * f; ++i) d.X.data()[i] = f == 1 ? mc::pick(U) : mc::pick(V); return d; }
Data pat(int k) { static const int N[] = {4, 6, 3}, F[] = {1, 2, 3}; Data d{Mat(N[k], F[k]), Vec(N[k])}; for (int i = 0; i < N[k]; ++i) { for (int j = 0; j < F[k]; ++j) d.X(i, j) = std::sin(1 + 2.7 * i * (j + 1) + k); d.y(i) = (i * 3 + k) % 4 < 2; } return d; }
}
MC_SCENARIO(l2_optimum, 3) { // SGD and SAG with one full batch
  int sv = mc::choose(2, "solver"); Data d = gen(); double lam = mc::choose(2, "penalty") ? 4 : 1.5; long n = d.X.rows(); Mat A = design(d.X); double L = A.squaredNorm() / n / 4 + lam / n; double a = std::min(1.5, 1.0 / L); mc::state(d.X, d.y, lam, sv); mc::env_stream(n + sv); S h = desc((sv ? "SAG" : "SGD") + S(" logistic regression, l2 penalty ") + mc::num(lam), d.X, d.y);
  mc::Dirty<LR> m(0xA5, a, lam, 1e-12, (Z)(n + sv), (Z)3000, (Z)5, S(sv ? "sag" : "sgd"), S("l2"), true, n == 3); fit(*m, d.X, d.y, h); Vec w = m->get_coef(), r = newton(A, d.y, lam / n); double fw = nll(A, d.y, w) + lam / n / 2 * w.squaredNorm(), fr = nll(A, d.y, r) + lam / n / 2 * r.squaredNorm(), rate = std::exp(-2 * 19 * a * lam / n); MC_CHECK(fw <= fr + 1e-6 + 40 * rate, h << ": penalised loss " << fw << " at " << mc::str(w) << ", the minimum is " << fr << " at " << mc::str(r)); mc::validated();
}
MC_SCENARIO(separable, 3) { // every solver, every order of the first epoch
  int sv = mc::choose(4, "solver"); Data d = gen(); long n = d.X.rows(); mc::state(d.X, d.y, sv); int b = sv < 2 ? mc::choose(n > 2 ? 2 : 1, "batch") : 0; int st = mc::choose(2, "stream"); if (st && (n > 3 || sv > 1 || (n == 3 && d.X.cols() == 2 && !mc::thorough()))) mc::prune(); if (st) mc::env_enumerate(1); else mc::env_stream(3 + sv); static const char* NM[] = {"sgd", "sag", "lbfgs", "scd"}; S h = desc(NM[sv] + S(" logistic regression"), d.X, d.y);
  std::unique_ptr<LR> m; Z bs = b ? n : 1; if (sv < 2) m.reset(new LR(sv && !b ? 1.0 : 4.0, 0.0, 1e-4, bs, (Z)3000, (Z)40, NM[sv], "None", true, false)); else if (sv == 2) m.reset(new LR(1e-6, 1e-4, 0.0, 0.9, (Z)60, (Z)6, (Z)0, (Z)40, "lbfgs", "None", "backtracking", "WOLFE", true, false)); else m.reset(new LR(0.001, 3.0, (Z)1500, "scd", "l1", true, false));
  fit(*m, d.X, d.y, h); separates(*m, d.X, d.y, 0.12, h);
}
MC_SCENARIO(lbfgs, 4) { static const char* CO[] = {"ARMIJO", "WOLFE", "STRONG"}; int c = mc::choose(3, "condition"), p = mc::choose(2, "policy"); Data d = gen(); bool zero = mc::choose(2, "unlimited"); Mat A = design(d.X); mc::state(d.X, d.y, c, p, zero); mc::env_stream(c + 2 * p + 1); S h = desc(S("L-BFGS logistic regression (") + CO[c] + (zero ? ", to convergence)" : ", 25 iterations)"), d.X, d.y); LR m(1e-5, 1e-4, 1e-9, 0.9, (Z)(zero ? 0 : 25), (Z)5, (Z)(zero ? 0 : 3), (Z)40, "lbfgs", p ? "l2" : "None", p ? "bracketing" : "backtracking", CO[c], true, false); fit(m, d.X, d.y, h); Vec w = m.get_coef(); if (c < 2 && zero) { double g = grad(A, d.y, w).norm() / std::max(1.0, w.norm()); MC_CHECK(g <= 1.01e-5, h << ": ends with relative gradient " << g << " at " << mc::str(w)); mc::validated(); } double f = nll(A, d.y, w); MC_CHECK(f <= nll(A, d.y, newton(A, d.y, 1e-9)) + (c < 2 ? 0.01 : 0.6), h << ": loss " << f << " at " << mc::str(w)); separates(m, d.X, d.y, c < 2 ? 0.12 : 9, h); mc::validated(); }
MC_SCENARIO(l1_optimum, 3) { static const double LA[] = {0.02, 0.1, 3}; int li = mc::choose(3, "penalty"); Data d = gen(); if (d.X.rows() == 4 && li != 1) mc::prune(); double lam = LA[li]; Mat A = design(d.X); double beta = A.colwise().squaredNorm().maxCoeff() / A.rows() / 4 + 0.05; mc::state(d.X, d.y, lam); mc::env_stream(li + 1); S h = desc("coordinate-descent logistic regression, l1 penalty " + mc::num(lam), d.X, d.y); mc::Dirty<LR> m(0x5A, lam, beta, (Z)3000, S("scd"), S("l1"), true, false); fit(*m, d.X, d.y, h); Vec w = m->get_coef(), r = prox(A, d.y, lam); double fw = nll(A, d.y, w) + lam * w.cwiseAbs().sum(), fr = nll(A, d.y, r) + lam * r.cwiseAbs().sum(); MC_CHECK(fw <= fr + 2e-3 * (lam < 0.05 ? 3 : 1), h << ": objective " << fw << " at " << mc::str(w) << ", the minimum is " << fr << " at " << mc::str(r)); if (lam >= 1.01 * (A.transpose() * Vec(d.y.array() - 0.5) / (double)A.rows()).cwiseAbs().maxCoeff()) MC_CHECK(w.cwiseAbs().maxCoeff() < 1e-9, h << ": coefficients " << mc::str(w) << " under a dominating penalty"); mc::validated(2); }
MC_SCENARIO(mini_batch, 3) { // unpenalised, inseparable: near the optimum for every order of the first epoch
  int sv = mc::choose(2, "solver"), c = mc::choose(16, "labels"), q = mc::choose(3, "x"), b = 1 + mc::choose(2, "batch"); Data d{Mat(4, 1), Vec(4)}; for (int i = 0; i < 4; ++i) { d.X(i, 0) = q == 0 ? i - 1.5 : q == 1 ? (i % 2 ? 1 : -1) : i * 0.5; d.y(i) = c >> i & 1; } Mat A = design(d.X); Vec r = newton(A, d.y, 1e-9); if (r.norm() > 4) mc::prune(); mc::state(d.X, d.y, sv, b); mc::env_enumerate(1); S h = desc(S(sv ? "SAG" : "SGD") + " logistic regression, batch " + mc::num(b), d.X, d.y); LR m(sv ? 0.3 : 0.5, 0, 1e-9, b, 4000, 60, sv ? "sag" : "sgd", "None", true, false); fit(m, d.X, d.y, h); double fw = nll(A, d.y, m.get_coef()), fr = nll(A, d.y, r); MC_CHECK(fw <= fr + (sv ? 0.15 : 0.06), h << ": loss " << fw << " at " << mc::str(m.get_coef()) << ", the minimum is " << fr); mc::validated(); }
MC_SCENARIO(options, 1) { int k = mc::choose(6, "case"); Data d = pat(0); auto bad = [&](LR m, const char* w) { MC_CHECK(mc::throws([&] { m.fit(d.X, d.y); }), "logistic regression accepts " << w); mc::step(); mc::validated(); }; mc::state(k);
  if (k == 0) bad(LR(0.1, 0, 1e-4, 1, 10, 1, "newton", "l2", true, false), "an unknown solver"); if (k == 1) bad(LR(0.1, 0, 1e-4, 1, 10, 1, "sgd", "l1", true, false), "an l1 penalty for SGD"); if (k == 2) bad(LR(0.1, 0, 1e-4, 1, 10, 1, "sgd", "l3", true, false), "an unknown penalty"); if (k == 3) bad(LR(0.1, 1.0, 10, "scd", "l2", true, false), "an l2 penalty for coordinate descent"); if (k == 4) bad(LR(0.1, 0, 1e-4, 1, 2, 9, "sgd", "None", true, false), "an epoch budget below its patience");
  if (k == 5) for (int t = 0; t < 3; ++t) { Data e = pat(t); mc::env_stream(t + 1); LR m; S h = desc("default logistic regression", e.X, e.y); fit(m, e.X, e.y, h); mc::validated(); } }
MC_SCENARIO(history, 2) { int sv = mc::choose(4, "solver"); mc::choose(1); auto make = [&] { return sv == 0 ? LR(0.8, 2.0, 1e-9, 3, 2000, 4, "sgd", "l2", true, false) : sv == 1 ? LR(0.5, 0.0, 1e-6, 2, 2000, 9, "sag", "None", true, false) : sv == 2 ? LR(1e-6, 1e-4, 1e-9, 0.9, 30, 6, 3, 40, "lbfgs", "None", "bracketing", "WOLFE", true, false) : LR(0.05, 2.0, 300, "scd", "l1", true, false); }; LR a = make(), other = make();
  for (int t = 0; t < 3; ++t) { int k = mc::choose(3, "data"); mc::state(sv, t, k); Data d = pat(k); S h = desc("refitted logistic regression", d.X, d.y); mc::env_stream(k + 1); fit(a, d.X, d.y, h); Vec w = a.get_coef(); LR fresh = make(); mc::env_stream(k + 1); fresh.fit(d.X, d.y); MC_CHECK(mc::nearM(w, fresh.get_coef(), 1e-9), h << ": refitted coefficients " << mc::str(w) << ", a fresh model gives " << mc::str(fresh.get_coef())); Data o = pat((k + 1) % 3); other.fit(o.X, o.y); MC_CHECK(a.get_coef() == w, h << ": another model changed the coefficients"); mc::step(2); mc::validated(); } }
MC_SCENARIO(refit_same_shape, 2) {
  int sv = mc::choose(4, "solver"), a = mc::choose(5, "first"), b = mc::choose(5, "second"), f = 1 + mc::choose(2, "f"), it = mc::choose(3, "budget"); auto set = [&](int k) { Data d{Mat(5 - k % 2, f), Vec(5 - k % 2)}; for (long i = 0; i < d.y.size(); ++i) { for (int j = 0; j < f; ++j) d.X(i, j) = std::sin(1 + 2.7 * i * (j + 1) + k) * (k == 3 ? 4 : 1); d.y(i) = (i * 3 + k) % 4 < 2; } return d; }; Data p = set(a), q = set(b); Z n = it == 0 ? 1 : it == 1 ? 7 : 60; mc::state(sv, a, b, f, it);
  auto make = [&] { return sv < 2 ? LR(0.3, 0.1, 1e300, 2, n + 1, n, sv ? "sag" : "sgd", "l2", true, false) : sv == 2 ? LR(1e-6, 1e-4, 1e-9, 0.9, n, 4, 0, 30, "lbfgs", "None", "backtracking", "WOLFE", true, false) : LR(0.05, 2.0, n, "scd", "l1", true, false); }; S h = desc("logistic regression, solver " + mc::num(sv) + ", " + mc::num(n) + " iterations, refitted after X=" + mc::str(p.X), q.X, q.y);
  LR m = make(), c = make(); mc::env_stream(a + 1); m.fit(p.X, p.y); mc::env_stream(b + 1); m.fit(q.X, q.y); mc::env_stream(b + 1); c.fit(q.X, q.y); mc::step(3); MC_CHECK(mc::nearM(m.get_coef(), c.get_coef(), 1e-9), h << ": coefficients " << mc::str(m.get_coef()) << ", a fresh model gives " << mc::str(c.get_coef())); mc::validated();
}
MC_SCENARIO(lbfgs_options, 3) {
  static const char* CO[] = {"ARMIJO", "WOLFE", "STRONG"}; auto two = [](double a, double b, const char* n) { return mc::choose(2, n) ? b : a; }; Data d = pat(mc::choose(3, "data")); double tol = two(1e-7, 0.03, "tol"), ftol = two(1e-4, 0.3, "ftol"), delta = two(1e-9, 0.02, "delta"), wolfe = two(0.9, 0.31, "wolfe"); Z it = mc::choose(2, "budget") ? 2 : 30, mem = mc::choose(2, "memory") ? 1 : 5, past = mc::choose(3, "past"), tr = mc::choose(2, "trials") ? 2 : 40; S pol = mc::choose(2, "policy") ? "bracketing" : "backtracking", co = mc::pick(CO, "condition"); if (past == 2) past = 3; mc::state(d.X, tol, ftol, delta, wolfe, it, mem, past, tr, pol, co);
  S h = desc("L-BFGS logistic regression, tol " + mc::num(tol) + " ftol " + mc::num(ftol) + " delta " + mc::num(delta) + " wolfe " + mc::num(wolfe) + " iterations " + mc::num(it) + " memory " + mc::num(mem) + " past " + mc::num(past) + " trials " + mc::num(tr) + " " + pol + " " + co, d.X, d.y);
  LR s(1e300, ftol, delta, wolfe, it, mem, past, tr, "lbfgs", "None", pol, co, true, false); mc::env_stream(7); s.fit(d.X, d.y); Vec w0 = s.get_coef(); mc::Dirty<LR> m(0xA5, tol, ftol, delta, wolfe, it, mem, past, tr, S("lbfgs"), S("None"), pol, co, true, false); mc::env_stream(7); m->fit(d.X, d.y); mc::step(2);
  typedef optimizer::LineSearchParams<double> P; optimizer::LBFGS<double, loss::LogLoss<double>, P> o(w0, loss::LogLoss<double>(0.0), P(ftol, wolfe, tr, co), it, mem, past, tol, delta, pol, true, false); o.optimize(design(d.X), d.y); Vec r = o.get_coef(); MC_CHECK(mc::nearM(m->get_coef(), r, 1e-6), h << ": coefficients " << mc::str(m->get_coef()) << ", the optimiser with these options gives " << mc::str(r) << " from " << mc::str(w0)); mc::validated();
}
