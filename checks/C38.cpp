// flags: -O1
// debug: off
//# gaussian mixture: 3-4 samples in 1-D over {0,1,3} (every set), 4 in 2-D, K 1-2, every initial responsibility draw from {0, 1/2, 1-}; long batches; patterned sets of 6-36, 70, 150 x 1-3, 6 with K 1-4 and 7 over 6 draw streams; full and tied covariances, 1-3 initialisations, regularisation 1e-6/1e-2/0.1/0, iteration limits 1/2/3/20/100, tolerances 1e-6/1e-3/1e9; refit histories; patterned sets scaled by 1/100, 1, 100 and moved by 1e3, -1e5, 1e6
//! reference EM in double and long double; runs on which the two disagree (ill-conditioned) or whose stopping test is within rounding are not judged; responsibilities may be filled from the draws by rows or by columns
//# overlapping data on which EM takes hundreds to thousands of iterations: 8-30 samples x 1-2, K 2-3, both covariances, tolerances 1e-4..1e-8, budgets 101, 257, 1001, 5003 and 20000
#include "core.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
using namespace openml;
namespace {
typedef mixture_model::GaussianMixture<double> GM;
struct P { long it, inits, K; std::string cov; double tol, reg; };
std::string show(const P& p) { return "gaussian mixture K=" + std::to_string(p.K) + " " + p.cov + " max_iter=" + std::to_string(p.it) + " num_init=" + std::to_string(p.inits) + " tol=" + mc::num(p.tol) + " reg=" + mc::num(p.reg); }
template <class T> struct EM {
  typedef Eigen::Matrix<T, -1, -1> M; typedef Eigen::Matrix<T, -1, 1> V; M X; P p; V w; M mu; std::vector<M> S; T lb = 0; bool conv = false, ok = true, close = false;
  void mstep(const M& R) { long n = X.rows(), f = X.cols(); V nk = R.colwise().sum().transpose(); nk.array() += 10 * std::numeric_limits<double>::epsilon(); mu = R.transpose() * X; for (long k = 0; k < p.K; ++k) mu.row(k) /= nk(k); S.clear(); M I = M::Identity(f, f) * (T)p.reg; M tied = M::Zero(f, f); for (long k = 0; k < p.K; ++k) { M s = M::Zero(f, f); for (long i = 0; i < n; ++i) { V d = (X.row(i) - mu.row(k)).transpose(); s += R(i, k) * d * d.transpose(); } tied += s; if (p.cov == "full") S.push_back(s / nk(k) + I); } if (p.cov == "tied") { S.push_back(tied / nk.sum() + I); } w = nk / n; for (auto& s : S) { Eigen::SelfAdjointEigenSolver<M> e(s); if (!(e.eigenvalues().minCoeff() > 1e-9 * std::max<T>(1, e.eigenvalues().maxCoeff()))) ok = false; } ok = ok && mu.allFinite() && w.allFinite(); }
  M logp(const M& Q) const { long f = Q.cols(); M L(Q.rows(), p.K); for (long k = 0; k < p.K; ++k) { const M& s = S[p.cov == "tied" ? 0 : k]; Eigen::LLT<M> c(s); T ld = 0; for (long j = 0; j < f; ++j) ld += std::log((T)M(c.matrixL())(j, j)); for (long i = 0; i < Q.rows(); ++i) { V d = (Q.row(i) - mu.row(k)).transpose(); V z = c.matrixL().solve(d); L(i, k) = std::log(w(k)) - (T)0.5 * (f * std::log(2 * (T)M_PIl) + z.squaredNorm()) - ld; } } return L; }
  static V lse(const M& L) { V r(L.rows()); for (long i = 0; i < L.rows(); ++i) { T m = L.row(i).maxCoeff(); r(i) = m + std::log((L.row(i).array() - m).exp().sum()); } return r; }
  M post(const M& Q) const { M L = logp(Q); V s = lse(L); for (long i = 0; i < L.rows(); ++i) L.row(i).array() -= s(i); return L.array().exp(); }
  void run(const M& R0) { mstep(R0); T prev = 0; lb = -std::numeric_limits<T>::infinity(); for (long t = 0; t < p.it && ok; ++t) { prev = lb; M L = logp(X); V s = lse(L); lb = s.mean(); if (!std::isfinite((double)lb)) { ok = false; break; } for (long i = 0; i < L.rows(); ++i) L.row(i).array() -= s(i); mstep(L.array().exp()); if (t && std::fabs((double)(std::fabs(lb - prev) - (T)p.tol)) < 1e-9 + 1e-7 * p.tol) { if (p.tol < 1e6) close = true; } if (t && std::fabs(lb - prev) < p.tol) { conv = true; break; } } }
};
typedef EM<double> ED; typedef EM<long double> EL;
Mat stack(const ED& e) { long f = e.X.cols(); Mat r(e.p.K + e.S.size() * f + 1, std::max(f, 1L)); r.setZero(); r.topRows(e.p.K) = e.mu; for (std::size_t k = 0; k < e.S.size(); ++k) r.block(e.p.K + k * f, 0, f, f) = e.S[k]; r(r.rows() - 1, 0) = e.lb; return r; }
ED cast(const EL& l) { ED d; d.X = l.X.cast<double>(); d.p = l.p; d.w = l.w.cast<double>(); d.mu = l.mu.cast<double>(); for (auto& s : l.S) d.S.push_back(s.cast<double>()); d.lb = (double)l.lb; d.conv = l.conv; d.ok = l.ok; d.close = l.close; return d; }
Mat queries(const Mat& X) { long n = X.rows(), f = X.cols(); Mat Q(n + 4, f); Q.topRows(n) = X; Q.row(n) = X.colwise().minCoeff().array() - 0.7; Q.row(n + 1) = X.colwise().maxCoeff().array() + 0.3; Q.row(n + 2) = X.colwise().mean(); Q.row(n + 3) = X.row(n / 2); Q(n + 3, f - 1) += 0.2; return Q; }
bool matches(GM& m, const ED& e, double tol) { const auto C = m.get_covariance(); if (C.size() != e.S.size() || !mc::nearM(m.get_weights(), e.w, tol) || !mc::nearM(m.get_means(), e.mu, tol) || !mc::near(m.get_lower_bound(), e.lb, tol)) return false; for (std::size_t k = 0; k < C.size(); ++k) if (!mc::nearM(C[k], e.S[k], tol)) return false; return true; }
// returns false if the run is not judged
bool judge(GM& m, const Mat& X, const P& p, const std::string& who) {
  std::string h = who + show(p) + " on " + mc::str(X); MC_LOG(h); long n = X.rows(), f = X.cols(); mc::env().drawn.clear(); Mat XX = X; std::string err; try { m.fit(XX); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "exception"; } mc::step(); MC_CHECK(XX == X, h << ": fitting modified its data"); XX.setConstant(1e9); std::vector<double> d = mc::env().drawn; h += " with draws " + mc::str(d); const long av = d.size() / (n * p.K); MC_CHECK((long)d.size() == n * p.K * av && av >= 1 && (err.empty() ? av == p.inits : av <= p.inits), h << ": " << d.size() << " draws");
  bool sound = false, match = false; std::string ref; for (int order = 0; order < 2 && !match; ++order) { std::vector<ED> runs; bool good = true; for (long a = 0; a < av; ++a) { Mat R(n, p.K); for (long i = 0; i < n; ++i) for (long k = 0; k < p.K; ++k) R(i, k) = d[a * n * p.K + (order ? i * p.K + k : k * n + i)]; for (long i = 0; i < n; ++i) { double s = R.row(i).sum(); if (!(s > 0)) good = false; else R.row(i) /= s; } if (!good) break; EL l; l.X = X.cast<long double>(); l.p = p; l.run(R.cast<long double>()); ED q; q.X = X; q.p = p; q.run(R); if (!l.ok || !q.ok || l.close || q.close || l.conv != q.conv || !mc::nearM(stack(q), stack(cast(l)), 1e-9)) { good = false; break; } runs.push_back(cast(l)); } if (!good) { if (order == 0) { if (who.find("must") != std::string::npos) mc::fail(h + ": not judged"); return false; } continue; } if (order == 0) sound = true;
    bool conv = false; double best = -INFINITY; for (auto& r : runs) { conv |= r.conv; best = std::max(best, r.lb); } if (!conv && av == p.inits) { if (order == 0 && !err.empty()) { mc::validated(); return false; } if (order == 0) ref += "no convergence; "; continue; } if (!err.empty()) { if (order == 0) MC_CHECK(false, h << ": rejected with " << err << ", the reference run converges to " << mc::str(stack(runs[0]))); continue; } for (auto& r : runs) if (r.lb >= best - 1e-8) { if (matches(m, r, 1e-6)) match = true; else ref += mc::str(stack(r)) + " "; } }
  if (!sound) return false; MC_CHECK(match, h << ": weights " << mc::str(m.get_weights().transpose()) << " means " << mc::str(m.get_means()) << " first covariance " << mc::str(m.get_covariance()[0]) << " bound " << m.get_lower_bound() << " are not the EM result " << ref);
  ED e; e.X = X; e.p = p; e.w = m.get_weights(); e.mu = m.get_means(); e.lb = m.get_lower_bound(); for (auto& s : m.get_covariance()) e.S.push_back(s); MC_CHECK(mc::near(e.w.sum(), 1, 1e-9) && e.w.minCoeff() >= 0, h << ": weights " << mc::str(e.w.transpose())); auto pr = m.get_precisions(), pc = m.get_precisions_cholesky(); MC_CHECK(pr.size() == e.S.size() && pc.size() == e.S.size(), h << ": " << pr.size() << " precisions, " << pc.size() << " factors for " << e.S.size() << " covariances"); for (std::size_t k = 0; k < pr.size(); ++k) { MC_CHECK(mc::nearM(e.S[k], e.S[k].transpose(), 1e-9), h << ": covariance " << mc::str(e.S[k]) << " is not symmetric"); MC_CHECK(pr[k].rows() == f && pr[k].cols() == f && mc::nearM(Mat(pr[k] * e.S[k]), Mat::Identity(f, f), 1e-6), h << ": precision " << mc::str(pr[k]) << " of covariance " << mc::str(e.S[k])); MC_CHECK(mc::nearM(Mat(pc[k] * pc[k].transpose()), pr[k], 1e-8), h << ": precision factor " << mc::str(pc[k]) << " of precision " << mc::str(pr[k])); }
  if (p.reg == 0) MC_CHECK(ED::lse(e.logp(X)).mean() >= e.lb - 1e-9, h << ": the last step lost likelihood");
  Mat Q = queries(X); const Mat Q0 = Q; Mat want = e.post(Q), got = m.predict_prob(Q); Vec l = m.predict(Q); mc::step(2); MC_CHECK(Q == Q0, h << ": predicting modified its data"); MC_CHECK(got.rows() == Q.rows() && got.cols() == p.K && l.size() == Q.rows(), h << ": prediction shapes"); for (long i = 0; i < Q.rows(); ++i) { double z = e.logp(Q.row(i)).cwiseAbs().maxCoeff(), tol = 1e-7 * std::max(1.0, z); MC_CHECK(mc::near(got.row(i).sum(), 1, 1e-9 + 1e-13 * z), h << ": posteriors " << mc::str(got.row(i)) << " of " << mc::str(Q.row(i))); MC_CHECK(tol > 0.01 || mc::nearM(got.row(i), want.row(i), tol), h << ": posteriors " << mc::str(got.row(i)) << " of " << mc::str(Q.row(i)) << " should be " << mc::str(want.row(i))); MC_CHECK(l(i) >= 0 && l(i) < p.K && got(i, (long)l(i)) >= got.row(i).maxCoeff() - 1e-9, h << ": label " << l(i) << " with posteriors " << mc::str(got.row(i))); if (i % 2 == 0) { Mat o = m.predict_prob(Q.row(i)); Vec ol = m.predict(Q.row(i)); MC_CHECK(mc::nearM(o, Mat(got.row(i)), tol) && ol.size() == 1 && (ol(0) == l(i) || std::fabs(got(i, (long)l(i)) - got(i, (long)ol(0))) < tol), h << ": alone " << mc::str(Q.row(i)) << " gets " << mc::str(o) << " " << mc::str(ol)); } } Mat B = mc::tall(X, Q, 6); if (B.rows() > 1) { Mat bp = m.predict_prob(B); Vec bl = m.predict(B); mc::step(2); MC_CHECK(bp.rows() == B.rows() && bp.cols() == p.K && bl.size() == B.rows(), h << ": prediction shapes for a batch of " << B.rows()); for (long i = 0; i < B.rows(); ++i) { long q = 0; while (q < Q.rows() && Q.row(q) != B.row(i)) ++q; Mat w = q < Q.rows() ? Mat(got.row(q)) : m.predict_prob(B.row(i)); double z = e.logp(B.row(i)).cwiseAbs().maxCoeff(), tol = 1e-7 * std::max(1.0, z); MC_CHECK(tol > 0.01 || mc::nearM(Mat(bp.row(i)), w, tol), h << ": row " << i << " of a batch of " << B.rows() << " gets posteriors " << mc::str(bp.row(i)) << ", otherwise " << mc::str(w)); MC_CHECK(bl(i) >= 0 && bl(i) < p.K && bp(i, (long)bl(i)) >= bp.row(i).maxCoeff() - 1e-9, h << ": row " << i << " of a batch of " << B.rows() << " gets label " << bl(i) << " with posteriors " << mc::str(bp.row(i))); } } mc::validated(3 + 2 * Q.rows()); return true; }
Mat pattern(int n, int f, int d) { Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = d == 0 ? ((i * (7 + 4 * j) + j * j) % 17) * 0.5 : d == 1 ? (i % 3) * 6.0 * (j % 2 ? -1 : 1) + ((i * i + j * i) % 5) * 0.6 : std::sqrt(1.0 + i * (j + 2)) + ((i * (j + 1)) % 3) * 0.8; return X; }
}
MC_SCENARIO(small, 4) { int s = mc::choose(4, "shape"), c = mc::choose(2, "covariance"), cfg = mc::choose(3, "limits"); P p; p.cov = c ? "tied" : "full"; p.inits = 1; p.K = s == 0 ? 1 : 2; p.reg = cfg == 0 ? 1e-6 : cfg == 1 ? 1e-2 : 0.1; p.tol = cfg == 0 ? 1e-3 : cfg == 1 ? 1e9 : 1e-6; p.it = cfg == 0 ? 100 : cfg == 1 ? 2 : 20; static const double U[] = {0, 1, 3}; int n = s == 0 ? 4 : s == 1 ? 3 : 4, f = s == 3 ? 2 : 1; Mat X(n, f); if (s == 3) { int v = mc::choose(6, "data"); for (int i = 0; i < 8; ++i) X.data()[i] = (i * (v + 2) + i * i * (v % 3)) % 7; } else if (s == 2) { int v = mc::choose(5, "data"); static const double D[5][4] = {{0, 1, 3, 7}, {0, 0, 1, 1}, {2, 2, 2, 5}, {-1, 0, 0.5, 2}, {0, 1, 2, 3}}; for (int i = 0; i < 4; ++i) X(i, 0) = D[v][i]; } else for (int i = 0; i < n; ++i) X(i, 0) = mc::pick(U, "x"); mc::state(X, p.cov, p.K, p.reg); GM m(p.it, p.inits, p.K, "random", p.cov, p.tol, p.reg); if (!judge(m, X, p, "")) mc::prune(); }
MC_SCENARIO(patterns, 3) { int n = mc::size(6, 36, {70, 150}, "n"), f = mc::size(1, 3, {6}, "f"), d = mc::choose(3, "data"), st = mc::choose(6, "stream"); P p; p.K = mc::size(1, 4, {7}, "K"); if (p.K > n) mc::prune(); p.cov = mc::choose(2, "covariance") ? "tied" : "full"; static const long IT[] = {100, 300, 1, 100, 3, 20}, IN[] = {1, 2, 1, 3, 1, 2}; static const double TO[] = {1e-3, 1e-4, 1e-3, 1e-2, 1e9, 1e-3}, RE[] = {1e-6, 1e-2, 1e-6, 0.1, 1e-6, 0}; p.it = IT[st]; p.inits = IN[st]; p.tol = TO[st]; p.reg = RE[st]; Mat X = pattern(n, f, d); mc::env_stream(st + 1 + n); mc::state(X, p.cov, p.K, st); GM m(p.it, p.inits, p.K, "random", p.cov, p.tol, p.reg); if (!judge(m, X, p, "")) mc::prune(); }
MC_SCENARIO(history, 3) { int o = mc::choose(3, "object"), st = mc::choose(4, "stream"); mc::env_stream(st + 3); mc::Dirty<GM> def(0xA5); mc::Dirty<GM> dt(0xA5, (std::size_t)100, (std::size_t)2, (std::size_t)2, std::string("random"), std::string(o == 1 ? "tied" : "full"), 1e-3, 1e-2); P p = o == 0 ? P{100, 1, 3, "full", 1e-3, 1e-6} : P{100, 2, 2, o == 1 ? "tied" : "full", 1e-3, 1e-2}; GM& m = o == 0 ? *def : *dt; GM x(20, 1, 2, "random", "full", 0.5, 0.1); static const int N[] = {9, 14, 11, 20}, F[] = {2, 1, 3, 2}; for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(o, st, t, k); Mat X = pattern(N[k], F[k], k % 3); if (judge(m, X, p, "refitted ")) { Mat a = m.predict_prob(X); try { x.fit(X * 2); x.predict(X); } catch (const std::exception&) {} mc::step(2); MC_CHECK(m.predict_prob(X) == a, "another mixture changed the posteriors"); } } }
MC_SCENARIO(reject, 1) { int n = 1 + mc::choose(4, "n"); GM m(100, 1, n + 1, "random", "full", 1e-3, 1e-6); MC_CHECK(mc::throws([&] { m.fit(pattern(n, 2, 0)); }), "a mixture with more components than samples is fitted"); mc::state(n); mc::step(); mc::validated(); }
MC_SCENARIO(moved, 3) { static const double O[] = {1e3, -1e5, 1e6}, C[] = {0.01, 1, 100}; int n = mc::size(5, 14, {40}, "n"), f = mc::size(1, 3, {}, "f"), d = mc::choose(3, "data"), o = mc::choose(3, "offset"), c = mc::choose(3, "scale"); P p; p.K = 1 + mc::choose(3, "K"); p.cov = mc::choose(2, "covariance") ? "tied" : "full"; p.it = 100; p.inits = 1; p.tol = 1e-3; p.reg = 1e-6; Mat X = pattern(n, f, d) * C[c]; X.array() += O[o]; mc::env_stream(n + 3 * d + 1); mc::state(X, p.cov, p.K); GM m(p.it, p.inits, p.K, "random", p.cov, p.tol, p.reg); if (!judge(m, X, p, "")) mc::prune(); }
MC_SCENARIO(many_iterations, 3) { static const long IT[] = {101, 257, 1001, 5003, 20000}; static const double TO[] = {1e-4, 1e-6, 1e-8}; static const int N[] = {8, 15, 30}; int n = mc::pick(N, "n"), f = 1 + mc::choose(2, "f"), st = mc::choose(2, "stream"); P p; p.it = mc::pick(IT, "budget"); p.tol = mc::pick(TO, "tol"); p.K = 2 + mc::choose(2, "K"); p.cov = mc::choose(2, "covariance") ? "tied" : "full"; p.inits = 1; p.reg = 1e-2; Mat X(n, f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.7 * i + j) * 2 + ((i * 5 + j) % 7) * 0.3; mc::env_stream(st + n); mc::state(n, f, st, p.it, p.tol, p.K, p.cov); GM m(p.it, p.inits, p.K, "random", p.cov, p.tol, p.reg); if (!judge(m, X, p, "")) mc::prune(); }
