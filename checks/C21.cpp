// flags: -O1
//# L-BFGS on penalised least squares and logistic loss: every 2x1, 2x2, 3x1 data matrix over {-1,0,2} and 3x2 over {-1,1}... with three targets and three starts, patterned problems with 2-10 samples and 1-6 features, memory 1..6, budgets 1..8 and unlimited, past 0..3, stopping tolerances, both line searches, three conditions, two parameter sets; iterates compared with a dense BFGS reference, repeated on the same object and on a second one
//# 30, 70, 130 samples x 2, 9, 17 features, memory 1, 3, 8, 20, budgets 4, 10, 50, unlimited, past 0, 1, 5; copies; line searches failing after 1-3 trials or outside a step range of 0.05/0.3..0.7/1.5
//! comparison with the reference stops where a line-search decision lies within rounding (1e-7 relative); any condition name other than ARMIJO and WOLFE means the strong Wolfe condition
//# losses with straight pieces (Huber with two thresholds, hinge) and zero tolerance, where steps bring no change of gradient: 2-6 samples x 1-3 features, four data patterns, budgets 2, 10, 60 and (with a tolerance) unlimited
//# stop tests: past 1..5, relative decrease 0.01/0.1/0.5/20, gradient tolerance 1e-9/0.1/0.4, starts of norm 0.3, 0.7 and 3, six problems of 1-3 features
//# budgets of 100 to 3000 iterations and no budget on ill-conditioned least squares: 3-8 features, memory 1-3, both line searches: each longer budget lowers the objective until the gradient test holds, without a budget it holds at the end
#include "core.hpp"
#include "core/loss/huber_loss.hpp"
using namespace openml;
namespace {
typedef optimizer::LineSearchParams<double> P;
struct Out { Vec x; bool trusted; int iters; bool byTol; };
struct C { long max_iter, mem, past; double tol, delta; std::string pol, cond; double ftol, wolfe; long maxls; double dec, inc; double smin = 1e-20, smax = 1e20; };
template <class L> Out reference(const L& loss, const C& c, const Mat& X, const Vec& y, Vec x) {
  bool trust = true; auto close = [&](double a, double b) { if (std::fabs(a - b) <= 1e-7 * std::max({std::fabs(a), std::fabs(b), 1e-30})) trust = false; };
  double fx = loss.evaluate(X, y, x); Vec g = loss.gradient(X, y, x); double gn = g.norm(), xn = std::max(1.0, x.norm()); close(gn / xn, c.tol); if (gn / xn <= c.tol) return {x, trust, 0, true};
  std::vector<double> F{fx}; std::vector<Vec> Sv, Yv; Vec d = -g; double step = 1 / d.norm();
  for (int k = 1;; ++k) {
    Vec xp = x, gp = g; double f0 = fx, dg0 = d.dot(g); if (std::fabs(dg0) <= 1e-13 * d.norm() * g.norm()) trust = false; if (dg0 > 0) return {xp, trust, k, false}; double hi = INFINITY, lo = 0; int cnt = 0; bool ok = false;
    while (true) { x = xp + step * d; fx = loss.evaluate(X, y, x); g = loss.gradient(X, y, x); ++cnt; int dir = 0; // -1 shorter, +1 longer
      double need = f0 + step * c.ftol * dg0; if (std::fabs(fx - need) <= 1e-9 * std::max(1e-12, std::fabs(f0) * 1e-3 + std::fabs(fx - f0))) trust = false; if (std::fabs(fx - need) <= 1e-14 * std::fabs(f0)) trust = false;
      if (fx > need) dir = -1; else if (c.cond == "ARMIJO") ok = true; else { double dg = d.dot(g); close(dg, c.wolfe * dg0); if (dg < c.wolfe * dg0) dir = 1; else if (c.cond == "WOLFE") ok = true; else { close(dg, -c.wolfe * dg0); if (dg > -c.wolfe * dg0) dir = -1; else ok = true; } }
      if (ok) break; close(step, c.smin); close(step, c.smax); if (step < c.smin || step > c.smax || cnt >= c.maxls) break;
      if (c.pol == "backtracking") step *= dir < 0 ? c.dec : c.inc; else { if (dir < 0) hi = step; else lo = step; step = std::isinf(hi) ? 2 * step : (lo + hi) / 2; } }
    if (!ok) return {xp, trust, k, false};
    xn = std::max(1.0, x.norm()); gn = g.norm(); close(gn / xn, c.tol); if (gn / xn <= c.tol) return {x, trust, k, true};
    if (c.past > 0 && k >= c.past) { double r = std::fabs(F[k - c.past] - fx) / std::max(std::fabs(fx), 1.0); close(r, c.delta); if (std::fabs(r - c.delta) < 1e-12) trust = trust && c.delta == 0 && r > 0; if (r < c.delta) return {x, trust, k, false}; } F.push_back(fx);
    if (c.max_iter && k >= c.max_iter) return {x, trust, k, false};
    Sv.push_back(x - xp); Yv.push_back(g - gp); if ((long)Sv.size() > c.mem) { Sv.erase(Sv.begin()); Yv.erase(Yv.begin()); }
    long n = x.size(); double ys = Yv.back().dot(Sv.back()), yy = Yv.back().squaredNorm(); if (!(ys > 1e-13 * Yv.back().norm() * Sv.back().norm())) trust = false; Mat H = ys / yy * Mat::Identity(n, n), I = Mat::Identity(n, n);
    for (size_t i = 0; i < Sv.size(); ++i) { double rho = 1 / Yv[i].dot(Sv[i]); H = (I - rho * Sv[i] * Yv[i].transpose()) * H * (I - rho * Yv[i] * Sv[i].transpose()) + rho * Sv[i] * Sv[i].transpose(); }
    d = -H * g; step = 1; if (!trust && k > 60) return {x, false, k, false}; if (k > 5000) return {x, false, k, false}; }
}
template <class L> void judge(const L& loss, const C& c, const Mat& X, const Vec& y, const Vec& x0, bool convex, const std::string& what) {
  std::ostringstream o; o << "L-BFGS(" << c.pol << "," << c.cond << ",iters " << c.max_iter << ",memory " << c.mem << ",past " << c.past << ",tol " << c.tol << ",delta " << c.delta << ",ftol " << c.ftol << ",wolfe " << c.wolfe << ",trials " << c.maxls << ",steps " << c.smin << ".." << c.smax << ") " << what << " from " << mc::str(x0) << " on X=" << mc::str(X) << " y=" << mc::str(y); std::string h = o.str(); MC_LOG(h);
  const Mat X0 = X; const Vec y0 = y; bool defaults = c.dec == 0.5 && c.inc == 2.1 && c.smin == 1e-20 && c.smax == 1e20; P p = defaults ? P(c.ftol, c.wolfe, c.maxls, c.cond) : P(c.dec, c.inc, c.ftol, c.wolfe, c.smax, c.smin, c.maxls, c.cond); typedef optimizer::LBFGS<double, L, P> O;
  O a(x0, loss, p, c.max_iter, c.mem, c.past, c.tol, c.delta, c.pol, false, false); a.optimize(X, y); Vec w = a.get_coef(); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); MC_CHECK(w.size() == x0.size() && mc::finite(w), h << " returned " << mc::str(w));
  double f0 = loss.evaluate(X, y, x0), f1 = loss.evaluate(X, y, w); MC_CHECK(f1 <= f0 + 1e-12 * (1 + std::fabs(f0)), h << ": loss rises from " << f0 << " to " << f1);
  Out r = reference(loss, c, X, y, x0); if (r.trusted && r.iters <= 12) { double tol = r.iters <= 4 ? 1e-6 : 1e-5; MC_CHECK(mc::nearM(w, r.x, tol), h << ": returned " << mc::str(w) << ", the recurrence gives " << mc::str(r.x) << " after " << r.iters << " iterations"); mc::validated(); }
  Vec g = loss.gradient(X, y, w); double gn = g.norm() / std::max(1.0, w.norm()); if (convex && c.maxls == 40 && c.smin == 1e-20 && c.smax == 1e20 && c.max_iter == 0 && (c.past == 0 || c.delta == 0)) MC_CHECK(gn <= std::max(c.tol, 1e-6) * 1.001, h << ": ends with relative gradient " << gn << " at " << mc::str(w));
  if (r.trusted && r.byTol) MC_CHECK(gn <= c.tol * 1.01 + 1e-12, h << ": gradient " << gn << " although the run converges");
  O b(x0 * 0.5, loss, p, 2, c.mem, c.past, c.tol, c.delta, c.pol, true, true); b.optimize(X, y); a.optimize(X, y); MC_CHECK(a.get_coef() == w, h << ": a second run gives " << mc::str(a.get_coef()) << " instead of " << mc::str(w)); mc::step(2); mc::validated(2);
}
void setp(C& c) { static const char* CO[] = {"ARMIJO", "WOLFE", "STRONG"}; c.pol = mc::choose(2, "policy") ? "bracketing" : "backtracking"; c.cond = mc::pick(CO, "condition"); bool s = mc::choose(2, "params"); c.ftol = s ? 0.1 : 1e-4; c.wolfe = s ? 0.5 : 0.9; c.maxls = 40; c.dec = s ? 0.3 : 0.5; c.inc = s ? 1.7 : 2.1; }
template <class F> void both(int lk, double lam, F f) { if (lk) f(loss::LogLoss<double>(lam)); else f(loss::MSE<double>(lam)); }
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 2}, Wv[] = {-1, 1}; int sh = mc::choose(4, "shape"), n = sh < 2 ? 2 : 3, f = sh % 2 ? 2 : 1; Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = sh == 3 ? mc::pick(Wv) : mc::pick(V); int lk = mc::choose(2, "loss"), t = mc::choose(3, "target"), z = mc::choose(2, "start"), b = mc::choose(4, "budget"); double lam = t == 2 ? 0.5 : 0.1; Vec y(n); for (int i = 0; i < n; ++i) y(i) = lk ? (t == 0 ? i % 2 : t == 1 ? i == 0 : i < 2) : (t == 0 ? i + 1 : t == 1 ? -2.0 * i : 3); Vec x0(f); for (int j = 0; j < f; ++j) x0(j) = z ? 2 - 3 * j : 0;
  C c; c.max_iter = b < 3 ? b * b + 1 : 0; c.mem = 1 + (b + z) % 3; c.past = b == 3 ? 0 : 2; c.tol = 1e-6; c.delta = 0; setp(c); mc::state(X, y, x0, lk, b, c.cond, c.pol, c.ftol); both(lk, lam, [&](auto l) { judge(l, c, X, y, x0, c.cond != "STRONG", lk ? "logistic" : "squared"); });
}
MC_SCENARIO(options, 4) {
  int n = 2 + 2 * mc::choose(5, "n"), f = 1 + mc::choose(6, "f"), lk = mc::choose(2, "loss"); C c; setp(c); static const long B[] = {1, 2, 3, 5, 8, 0}; c.max_iter = mc::pick(B, "budget"); c.mem = 1 + mc::choose(6, "memory"); int st = mc::choose(4, "stop"); c.past = st; c.tol = st == 1 ? 1e-2 : 1e-6; c.delta = st == 2 ? 1e-3 : st == 3 ? 1e-2 : 0; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 7 + j * 3 + i * j) % 11) * 0.37 - 1.6; y(i) = lk ? (i * 5 / 3) % 2 : ((i * 13) % 9) * 0.51 - 1; } Vec x0(f); for (int j = 0; j < f; ++j) x0(j) = 0.7 * (j % 3) - 0.5; mc::state(n, f, lk, c.pol, c.cond, c.ftol, c.max_iter, c.mem, st); both(lk, 0.3, [&](auto l) { judge(l, c, X, y, x0, c.cond != "STRONG", lk ? "logistic" : "squared"); });
}
MC_SCENARIO(stationary, 3) { int n = 2 + mc::choose(3, "n"), f = 1 + mc::choose(2, "f"), lk = mc::choose(2, "loss"); C c; setp(c); c.max_iter = 5; c.mem = 3; c.past = 3; c.tol = 1e-6; c.delta = 0; Mat X(n, f); Vec x0(f); for (int i = 0; i < n; ++i) for (int j = 0; j < f; ++j) X(i, j) = i - j; for (int j = 0; j < f; ++j) x0(j) = lk ? 0 : 1 + j; Vec y = X * x0; if (lk) y.setConstant(0.5); mc::state(n, f, lk); both(lk, 0, [&](auto l) { optimizer::LBFGS<double, decltype(l), P> o(x0, l, P(1e-4, 0.9, 40, c.cond), 5, 3, 3, 1e-6, 0, c.pol, false, false); o.optimize(X, y); Mat w = o.get_coef(); mc::step(); MC_CHECK(w.rows() == f && w.cols() == 1 && Vec(w) == x0, "a stationary start " << mc::str(x0) << " is returned as " << mc::str(w)); MC_CHECK(mc::throws([&] { optimizer::LBFGS<double, decltype(l), P> q(x0, l, P(), 5, 3, 3, 1e-6, 0, "nope", false, false); q.optimize(X, y); }), "an unknown line search is accepted"); mc::validated(2); }); }
MC_SCENARIO(defaults, 2) { int n = 3 + mc::choose(6, "n"), lk = mc::choose(2, "loss"), f = 2; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { X(i, 0) = i % 4 - 1.5; X(i, 1) = (i * i) % 5; y(i) = lk ? i % 2 : i * 0.5; } mc::state(n, lk); both(lk, 0.2, [&](auto l) { optimizer::LBFGS<double, decltype(l), P> o(Vec::Zero(f), l, P()); o.optimize(X, y); C c{0, 8, 3, 1e-5, 1e-6, "backtracking", "WOLFE", 1e-4, 0.9, 40, 0.5, 2.1}; Out r = reference(l, c, X, y, Vec::Zero(f)); Vec w = o.get_coef(); mc::step(); if (r.trusted) MC_CHECK(mc::nearM(w, r.x, 1e-4), "default L-BFGS gives " << mc::str(w) << " not " << mc::str(r.x)); Vec g = l.gradient(X, y, w); MC_CHECK(g.norm() < 1e-2, "default L-BFGS ends with gradient " << mc::str(g)); mc::validated(2); }); }
// each line search on its own: the accepted step satisfies the condition it was asked for
MC_SCENARIO(line_search, 4) {
  int n = 2 + mc::choose(3, "n"), lk = mc::choose(2, "loss"), f = 1 + mc::choose(2, "f"), s0 = mc::choose(5, "step"); C c; setp(c); int z = mc::choose(3, "start"), q = mc::choose(3, "direction"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 7 + j * 3) % 5) - 1.7; y(i) = lk ? i % 2 : i * 0.75 - 1; } static const double S[] = {1e-4, 0.1, 1, 20, 3e4}; mc::state(n, lk, f, s0, c.pol, c.cond, c.ftol, z, q);
  both(lk, 0.1, [&](auto l) { typedef decltype(l) L; P p(c.dec, c.inc, c.ftol, c.wolfe, 1e20, 1e-20, 200, c.cond); std::unique_ptr<optimizer::BaseLineSearch<double, L, P>> ls; if (c.pol == "backtracking") ls.reset(new optimizer::LineSearchBacktracking<double, L, P>(X, y, l, p)); else ls.reset(new optimizer::LineSearchBracketing<double, L, P>(X, y, l, p));
    Vec x = Vec::Constant(f, z - 1.0), xp = x, g = l.gradient(X, y, x), gp = g, d = q == 0 ? Vec(-g) : q == 1 ? Vec(g) : Vec(-0.01 * g); double fx = l.evaluate(X, y, x), f0 = fx, step = S[s0], dg0 = d.dot(g); if (g.norm() < 1e-9) mc::prune(); int r = ls->search(x, fx, g, d, step, xp, gp); mc::step();
    std::ostringstream o; o << c.pol << "/" << c.cond << " from " << mc::str(xp) << " along " << mc::str(d) << " initial step " << S[s0]; if (q == 1) { MC_CHECK(r < 0, o.str() << ": an ascent direction is accepted"); mc::validated(); return; }
    if (c.cond != "STRONG" || c.pol == "bracketing") MC_CHECK(r > 0, o.str() << ": no step found (" << r << ")"); if (r < 0) { mc::validated(); return; } MC_CHECK(mc::nearM(x, Vec(xp + step * d), 1e-9) && mc::near(fx, l.evaluate(X, y, x), 1e-9) && mc::nearM(g, l.gradient(X, y, x), 1e-9), o.str() << ": point, value, gradient and step do not belong together"); double dg = d.dot(g);
    MC_CHECK(fx <= f0 + step * c.ftol * dg0 + 1e-9, o.str() << ": the accepted step " << step << " has no sufficient decrease"); if (c.cond != "ARMIJO") MC_CHECK(dg >= c.wolfe * dg0 - 1e-9, o.str() << ": the accepted step " << step << " violates the curvature condition"); if (c.cond == "STRONG") MC_CHECK(dg <= -c.wolfe * dg0 + 1e-9, o.str() << ": the accepted step " << step << " violates the strong curvature condition");
    Vec x2 = xp, g2 = gp; double f2 = f0, st2 = 0; MC_CHECK(ls->search(x2, f2, g2, d, st2, xp, gp) < 0, "a zero step is accepted"); mc::validated(3); });
}
MC_SCENARIO(larger, 3) { static const int N[] = {30, 70, 130}, F[] = {2, 9, 17}, M[] = {1, 3, 8, 20}, B[] = {4, 10, 50, 0}, PA[] = {0, 1, 5}; int n = mc::pick(N, "n"), f = mc::pick(F, "f"), lk = mc::choose(2, "loss"); C c; setp(c); c.mem = mc::pick(M, "memory"); c.max_iter = mc::pick(B, "budget"); c.past = mc::pick(PA, "past"); c.tol = 1e-6; c.delta = c.past == 5 ? 1e-4 : 0; if (!mc::thorough() && c.ftol != 0.1 && (c.mem == 3 || c.max_iter == 10)) mc::prune(); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.0 + 3.7 * i * (j + 1) + 1.3 * j) * (1 + j % 3); y(i) = lk ? (i * 5 / 3) % 2 : ((i * 13) % 9) * 0.51 - 1; } Vec x0(f); for (int j = 0; j < f; ++j) x0(j) = 0.7 * (j % 3) - 0.5; mc::state(n, f, lk, c.pol, c.cond, c.ftol, c.max_iter, c.mem, c.past); both(lk, 0.3, [&](auto l) { judge(l, c, X, y, x0, c.cond != "STRONG", lk ? "logistic" : "squared"); }); }
MC_SCENARIO(copies, 2) { int lk = mc::choose(2, "loss"), b = mc::choose(4, "budget"), d = mc::choose(3, "data"); C c; setp(c); Mat X(6, 2), X2(5, 2); Vec y(6), y2(5); for (int i = 0; i < 6; ++i) { X(i, 0) = (i * 7 + d) % 5 - 1.7; X(i, 1) = (i * 3 + d) % 4 - 1; y(i) = lk ? i % 2 : i * 0.75 - 1; if (i < 5) { X2(i, 0) = i - 1.5; X2(i, 1) = (i * i + d) % 3; y2(i) = lk ? i % 2 : 2 - i; } } mc::state(lk, b, d, c.pol, c.cond); MC_LOG(lk << b << d); both(lk, 0.2, [&](auto l) { typedef optimizer::LBFGS<double, decltype(l), P> O; O a(Vec::Zero(2), l, P(c.ftol, c.wolfe, 40, c.cond), b * 3, 4, 0, 1e-7, 0, c.pol, false, false); a.optimize(X, y); Mat w = a.get_coef(); O k(a); a.optimize(X2, y2); mc::step(3); MC_CHECK(k.get_coef() == w, "running the original changed its copy"); Mat w2 = a.get_coef(); k.optimize(X2, y2); MC_CHECK(mc::nearM(k.get_coef(), w2, 1e-12), "a copied L-BFGS gives " << mc::str(k.get_coef()) << ", the original " << mc::str(w2)); mc::validated(2); }); }
// line searches that run out of trials or leave the range of steps: the result is the last accepted point
MC_SCENARIO(failing, 4) {
  static const long TR[] = {1, 2, 3, 40}; static const double LO[] = {1e-20, 0.29, 0.05}, HI[] = {1e20, 0.7, 1.5}; int n = 3 + 2 * mc::choose(3, "n"), f = 1 + mc::choose(3, "f"), lk = mc::choose(2, "loss"); C c; setp(c); c.maxls = mc::pick(TR, "trials"); c.smin = mc::pick(LO, "smallest step"); c.smax = mc::pick(HI, "largest step"); int sc = mc::choose(3, "scale"); c.max_iter = mc::choose(2, "budget") ? 0 : 6; c.mem = 3; c.past = 0; c.tol = 1e-6; c.delta = 0; static const double S[] = {1, 12, 0.05};
  Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = S[sc] * (((i * 7 + j * 3 + i * j) % 11) * 0.37 - 1.6); y(i) = lk ? (i * 5 / 3) % 2 : ((i * 13) % 9) * 0.51 - 1; } Vec x0(f); for (int j = 0; j < f; ++j) x0(j) = 0.7 * (j % 3) - 0.5; mc::state(n, f, lk, c.pol, c.cond, c.ftol, c.maxls, c.smin, c.smax, sc, c.max_iter); both(lk, 0.3, [&](auto l) { judge(l, c, X, y, x0, c.cond != "STRONG", lk ? "logistic" : "squared"); });
}

MC_SCENARIO(no_curvature, 3) {
  int lk = mc::choose(5, "loss"), n = 2 + mc::choose(5, "n"), f = 1 + mc::choose(3, "f"), d = mc::choose(4, "data"); static const long B[] = {2, 10, 60}; long it = mc::pick(B, "budget"); C c; setp(c); int mem = 1 + 2 * mc::choose(2, "memory"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = j == 0 ? 1 : (((i * (5 + d) + j * 3) % 7) - 2) * 0.3; y(i) = lk == 3 ? (i + d) % 2 : lk == 2 ? (i + d) % 2 * 2 - 1 : lk == 4 ? i * 0.75 - 1 : 10 * (d + 1) + ((i * 7) % 5) * (d == 3 ? 4 : 0.5); } Vec x0 = Vec::Zero(f); mc::state(lk, n, f, d, it, c.cond, c.pol, c.ftol, mem);
  auto go = [&](auto l, bool smooth) { typedef decltype(l) L; optimizer::LBFGS<double, L, P> o(x0, l, P(c.dec, c.inc, c.ftol, c.wolfe, 1e20, 1e-20, 60, c.cond), it, mem, 0, 0.0, 0, c.pol, false, false); o.optimize(X, y); Vec w = Mat(o.get_coef()); mc::step(); std::ostringstream h; h << c.pol << "/" << c.cond << " L-BFGS with zero tolerance on " << (lk < 2 ? "Huber" : lk == 2 ? "hinge" : lk == 3 ? "logistic" : "squared") << " loss of " << mc::str(X) << " " << mc::str(y) << ", " << it << " iterations"; MC_LOG(h.str()); double a = l.evaluate(X, y, x0), b = l.evaluate(X, y, w); MC_CHECK(w.size() == f && mc::finite(w), h.str() << ": weights " << mc::str(w)); MC_CHECK(b <= a + 1e-12 * (1 + std::fabs(a)), h.str() << ": loss rises from " << a << " to " << b); Vec g0 = l.gradient(X, y, x0), g = l.gradient(X, y, w); if (g0.norm() > 1e-6 && c.cond != "STRONG") MC_CHECK(b < a, h.str() << ": no progress from a gradient " << mc::str(g0)); if (smooth && it == 60 && c.cond != "STRONG" && (lk > 2 || d == 0)) MC_CHECK(g.norm() <= 1e-4 * (1 + g0.norm()), h.str() << ": ends with gradient " << mc::str(g)); mc::validated(3); };
  if (lk < 2) go(loss::HuberLoss<double>(0.0, lk ? 3.0 : 0.5), true); else if (lk == 2) go(loss::HingeLoss<double>(0.0, 1.0), false); else if (lk == 3) go(loss::LogLoss<double>(0.1), true); else go(loss::MSE<double>(0.1), true);
}
MC_SCENARIO(stop_tests, 3) {
  static const double DE[] = {0.01, 0.1, 0.5, 20}, TO[] = {1e-9, 0.1, 0.4}, ST[] = {0.3, 0.7, 3}; int f = 1 + mc::choose(3, "f"), k = mc::choose(2, "problem"), lk = mc::choose(2, "loss"); C c; setp(c); c.past = 1 + mc::choose(5, "past"); c.delta = mc::pick(DE, "delta"); c.tol = mc::pick(TO, "tolerance"); c.max_iter = 0; c.mem = 3; double s = mc::pick(ST, "start"); Mat X(4 + 2 * k, f); Vec y(4 + 2 * k), x0(f);
  for (int i = 0; i < y.size(); ++i) { for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.0 + 2.3 * i * (j + 1) + k); y(i) = lk ? (i * 5 / 3 + k) % 2 : std::cos(3.0 * i) * (k ? 30 : 0.8); } for (int j = 0; j < f; ++j) x0(j) = s * (j % 2 ? -1 : 1) / std::sqrt(f); mc::state(f, k, lk, c.pol, c.cond, c.ftol, c.past, c.delta, c.tol, s);
  both(lk, 0.3, [&](auto l) { judge(l, c, X, y, x0, c.cond != "STRONG", lk ? "logistic" : "squared"); });
}
MC_SCENARIO(many_iterations, 3) { static const long B[] = {100, 250, 255, 256, 257, 300, 1000, 1001, 3000, 0}; static const double CO[] = {3, 10, 30}; int f = 3 + mc::choose(6, "f"), mem = 1 + mc::choose(3, "memory"), pol = mc::choose(2, "line search"); double co = mc::pick(CO, "condition"), tol = 1e-5; Mat X = Mat::Zero(f, f); Vec y(f); for (int i = 0; i < f; ++i) { for (int j = 0; j < f; ++j) X(i, j) = (i == j) * std::pow(co, (double)i / f * 2) + 0.1 * std::sin(i * 3.0 + j); y(i) = (i % 2 ? -1 : 1) * (2 + i); } mc::state(f, mem, pol, co); typedef loss::MSE<double> L; L l(0.0); double last = INFINITY, lg = INFINITY; for (long b : B) {
  optimizer::LBFGS<double, L, P> o(Vec::Zero(f), l, P(1e-4, 0.9, 60, "WOLFE"), b, mem, 0, tol, 0.0, pol ? "bracketing" : "backtracking", false, false); o.optimize(X, y); mc::step(); Vec w = o.get_coef(); double v = l.evaluate(X, y, w), g = l.gradient(X, y, w).norm() / std::max(1.0, w.norm()); std::ostringstream h; h << "L-BFGS with budget " << b << ", memory " << mem << (pol ? ", bracketing" : ", backtracking") << " on " << f << " features, condition " << co << ": objective " << v << ", gradient test " << g << ", before " << last << ", " << lg; MC_LOG(h.str());
  MC_CHECK(v <= last * (1 + 1e-12), h.str()); if (lg > tol * 1.001) MC_CHECK(v < last, h.str()); if (b == 0) MC_CHECK(g <= tol * 1.001, h.str()); last = v; lg = g; } mc::validated(10); }
