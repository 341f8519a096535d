// flags: -O1
//# SCD: every data set with 1-3 samples and 1-2 features over {-1,0,2} (thorough also 2x3), three label patterns, penalties {0,0.1,1,50}, curvature bounds {1,5,30}, 0..6 steps, three starting points, every outcome of the sample shuffle for the first two steps; every shape up to 16x8 with patterned entries and 0..60 steps; a second call on the same object
//# 17, 40, 100 samples x 9, 17 features with 0, 1, 20, 100 steps and three penalties; copies
//# optional arguments left out
//! greedy rule: each step moves one coordinate with the largest predicted descent (any of them on ties) to the minimiser of its quadratic model plus penalty
//# 255..257, 300 features of which the best is anywhere
//# 300 to 40000 steps on nearly collinear columns against the greedy recurrence, two data sets x two penalties x shuffling on/off
#include "core.hpp"
#include "scdref.hpp"
using namespace openml;
using scdref::walk;
namespace {
typedef loss::MSE<double> L; typedef optimizer::SCD<double, L> SCD;
double objective(const Mat& X, const Vec& y, const Vec& w, double lam) { return 0.5 * (X * w - y).squaredNorm() / X.rows() + lam * w.cwiseAbs().sum(); }
void judge(const Mat& X, const Vec& y, const Vec& x0, int steps, double beta, double lam, bool sh) {
  std::ostringstream o; o << "SCD(steps " << steps << ", curvature " << beta << ", penalty " << lam << ") from " << mc::str(x0) << " on X=" << mc::str(X) << " y=" << mc::str(y); std::string h = o.str(); MC_LOG(h); const Mat X0 = X; const Vec y0 = y;
  SCD s(x0, L(), steps, beta, lam, sh, steps % 2); s.optimize(X, y); mc::step(steps + 1); MC_CHECK(X == X0 && y == y0, h << " modified its data"); Vec w = s.get_coef(); MC_CHECK(w.size() == x0.size(), h << " returned " << w.size() << " weights");
  auto member = [&](const std::vector<Vec>& S, const Vec& v, const char* which) { bool ok = false; for (auto& u : S) ok |= mc::nearM(u, v, 1e-7); std::string all; for (auto& u : S) all += mc::str(u) + " "; MC_CHECK(ok, h << which << " returned " << mc::str(v) << ", the recurrence allows " << all); mc::validated(); };
  bool cut = false; auto S = walk(X, y, {x0}, steps, beta, lam, cut); if (!cut) member(S, w, "");
  double Lip = (X.transpose() * X / (double)X.rows()).operatorNorm(); if (beta >= Lip) MC_CHECK(objective(X, y, w, lam) <= objective(X, y, x0, lam) + 1e-9 * (1 + objective(X, y, x0, lam)), h << " increased the penalised loss");
  SCD s2(x0, L(), 1, beta, lam, false, false); s2.optimize(X, y); Vec one = s2.get_coef(); int moved = 0; for (long j = 0; j < one.size(); ++j) moved += one(j) != x0(j); MC_CHECK(moved <= 1, h << ": one step moved " << moved << " coordinates"); MC_CHECK(s.get_coef() == w, h << ": another optimiser changed the result");
  bool c2 = false; s.optimize(X, y); auto S2 = walk(X, y, {w}, steps, beta, lam, c2); if (!c2) member(S2, s.get_coef(), " (second call, continued)"); mc::step(steps + 2);
}
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 2}, LM[] = {0, 0.1, 1, 50}, BE[] = {1, 5, 30}; int n = 1 + mc::choose(3, "n"), f = 1 + mc::choose(mc::thorough() ? 3 : 2, "f"); if (n * f > 6) mc::prune(); Mat X(n, f); for (int i = 0; i < n * f; ++i) X.data()[i] = mc::pick(V, "x"); int k = mc::choose(3, "y"); Vec y(n); for (int i = 0; i < n; ++i) y(i) = k == 0 ? 1 + i : k == 1 ? (i % 2 ? -2 : 3) : 0;
  double lam = mc::pick(LM, "penalty"), be = mc::pick(BE, "curvature"); int st = n * f > 4 ? 2 * mc::choose(3, "steps") : mc::choose(7, "steps"), z = mc::choose(n * f > 4 ? 2 : 3, "start"); Vec x0(f); for (int j = 0; j < f; ++j) x0(j) = z == 0 ? 0 : z == 1 ? 1 - 3 * j : 0.25; mc::state(X, y, lam, be, st, z); mc::env_stream(3); judge(X, y, x0, st, be, lam, true);
}
MC_SCENARIO(orders, 4) { static const double LM[] = {0, 0.3}; int n = 1 + mc::choose(4, "n"), f = 1 + mc::choose(3, "f"), d = mc::choose(3, "data"); double lam = mc::pick(LM); int st = 1 + mc::choose(2, "steps"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 5 + j * 3 + d * i * j) % 7) - 2; y(i) = (i * i + d) % 4; } mc::state(n, f, d, st, lam); mc::env_enumerate(2); judge(X, y, Vec::Zero(f), st, 8, lam, true); }
MC_SCENARIO(shapes, 3) { static const double LM[] = {0, 0.2, 3}; int n = 1 + mc::choose(16, "n"), f = 1 + mc::choose(8, "f"), st = mc::choose(5, "steps") * 15; double lam = mc::pick(LM, "penalty"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 7 + j * 3 + i * j) % 11) * 0.37 - 1.6; y(i) = ((i * 13) % 9) * 0.51 - 1; } mc::state(n, f, st, lam); mc::env_stream(n); judge(X, y, Vec::Constant(f, 0.1), st, 40, lam, true); }
MC_SCENARIO(larger, 3) { static const double LM[] = {0, 0.05, 0.6}; static const int N[] = {17, 40, 100}, F[] = {9, 17}, ST[] = {0, 1, 20, 100}; int n = mc::pick(N, "n"), f = mc::pick(F, "f"), st = mc::pick(ST, "steps"); double lam = mc::pick(LM, "penalty"); bool sh = mc::choose(2, "shuffle"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = std::sin(1.0 + 3.7 * i * (j + 1) + 1.3 * j) * (1 + j % 3); y(i) = ((i * 13) % 9) * 0.51 - 1; } double be = 1.05 * (X.transpose() * X / (double)n).operatorNorm(); mc::state(n, f, st, lam, sh); mc::env_stream(n); judge(X, y, Vec::Constant(f, 0.1), st, be, lam, sh); }
MC_SCENARIO(copies, 2) { int st = mc::choose(4, "steps") * 3, d = mc::choose(3, "data"); Mat X(4, 2), X2(5, 2); Vec y(4), y2(5); for (int i = 0; i < 4; ++i) { X(i, 0) = i + d; X(i, 1) = (i * 3 + d) % 5 - 2; y(i) = i % 3; } for (int i = 0; i < 5; ++i) { X2(i, 0) = 2 - i; X2(i, 1) = (i * i + d) % 3; y2(i) = i * 0.5; } mc::state(st, d); MC_LOG(st << d); SCD a(Vec::Zero(2), L(), st, 8, 0.1, false, false); a.optimize(X, y); Vec w = a.get_coef(); SCD b(a); a.optimize(X2, y2); Vec w2 = a.get_coef(); mc::step(3); MC_CHECK(b.get_coef() == w, "running the original changed its copy"); b.optimize(X2, y2); MC_CHECK(mc::nearM(b.get_coef(), w2, 1e-12), "a copied SCD continues to " << mc::str(b.get_coef()) << ", the original to " << mc::str(w2)); mc::validated(2); }
MC_SCENARIO(left_out, 2) { int n = 1 + mc::choose(4, "n"), f = 1 + mc::choose(2, "f"), d = mc::choose(3, "data"); Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = ((i * 3 + j * 2 + d) % 5 - 2) * 0.25; y(i) = i % 3 - 0.5 * d; } mc::state(X, y); MC_LOG(mc::str(X) << mc::str(y)); mc::env_stream(2); SCD a(Vec::Zero(f), L()); a.optimize(X, y); mc::env_stream(2); SCD b(Vec::Zero(f), L(), 5000, 1.0, 1e-4, true, false); b.optimize(X, y); mc::step(2); MC_CHECK(mc::nearM(a.get_coef(), b.get_coef(), 1e-12), "leaving out the optional arguments does not mean 5000 steps, curvature 1 and penalty 1e-4: " << mc::str(a.get_coef()) << " instead of " << mc::str(b.get_coef())); mc::validated(); }
MC_SCENARIO(many_features, 2) { static const int F[] = {255, 256, 257, 300}, ST[] = {1, 2, 5}; int f = mc::pick(F, "f"), st = mc::pick(ST, "steps"), b = mc::choose(5, "best"), n = mc::size(1, 2, {6}, "n"); double lam = mc::choose(2, "penalty") * 0.05; int at = b == 0 ? 0 : b == 1 ? 254 : b == 2 ? f - 1 : b == 3 ? f - 2 : f / 2; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = i + 1.5; for (int j = 0; j < f; ++j) X(i, j) = j == at ? 1 + 0.25 * i : 0.001 * ((i * 7 + j * 13) % 101 + 1); } mc::state(n, f, st, at, lam); mc::env_stream(n); judge(X, y, Vec::Zero(f), st, 8, lam, b % 2); }
MC_SCENARIO(many_steps, 2) { static const int ST[] = {300, 999, 1000, 1001, 2049, 5001, 10001, 40000}; int st = mc::pick(ST, "steps"), d = mc::choose(2, "data"); double lam = mc::choose(2, "penalty") * 1e-3; bool sh = mc::choose(2, "shuffle"); int n = 4 + d, f = 2 + d; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { y(i) = i * 0.7 + (i % 2 ? 0.6 : -0.4) + (i == 2); for (int j = 0; j < f; ++j) X(i, j) = i - 1.5 + (j ? 0.03 * ((i * (j + 1) * 3 + j) % 4 - 1.5) : 0); } mc::env_stream(d + 1); double b = 1.01 * (X.transpose() * X / (double)n).operatorNorm(); mc::state(st, d, lam, sh);
  SCD s(Vec::Zero(f), L(), st, b, lam, sh, false); s.optimize(X, y); mc::step(st); Vec w = Vec::Zero(f), got = s.get_coef(); for (int t = 0; t < st; ++t) { Vec g = X.transpose() * (X * w - y) / n; int at = 0; double best = -1, by = 0; for (int j = 0; j < f; ++j) { double a = w(j) - g(j) / b, th = lam / b, e = (a > th ? a - th : a < -th ? a + th : 0) - w(j), q = -e * g(j) - b / 2 * e * e - lam * std::fabs(w(j) + e) + lam * std::fabs(w(j)); if (q > best) { best = q; at = j; by = e; } } w(at) += by; }
  std::ostringstream o; o << "SCD with " << st << " steps, penalty " << lam << (sh ? ", shuffled" : "") << ", data " << d << ": " << mc::str(got) << ", the greedy recurrence " << mc::str(w); MC_LOG(o.str()); double f0 = objective(X, y, Vec::Zero(f), lam), fw = objective(X, y, w, lam), fg = objective(X, y, got, lam); MC_CHECK(std::fabs(fw - fg) <= 1e-7 * (1 + f0) && (got - w).norm() <= 1e-3 * (1 + w.norm()), o.str()); mc::validated(); }
