// Reference recurrences for the stochastic optimisers. The loss handed to the
// optimiser records the batch and the weights of every gradient it computes, so
// the reference follows whatever batch order the (enumerated) shuffles produced.
#pragma once
#include "core.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
#include "core/loss/huber_loss.hpp"
using namespace openml;
namespace sr {
struct Call { Mat X; Vec y; Mat w; };
inline std::vector<Call>& calls() { static std::vector<Call> c; return c; }
template <class L> struct Rec : L { using L::L; Rec() {} Rec(const L& l) : L(l) {}
  template <class W> auto gradient(const Mat& X, const Vec& y, const W& w) const { calls().push_back({X, y, w}); return L::gradient(X, y, w); } };
enum Kind { SGD, SAG, TG };
struct Cfg { Kind kind; long batch, max_iter, nic; double tol; int policy; double mu; int decay; double lr, gamma; int step; double alpha, l1; bool shuffle; };
inline double rate(const Cfg& c, long e) { return c.decay == 0 ? c.lr : c.decay == 1 ? c.lr * std::pow(c.gamma, (e + 1) / c.step) : c.lr * std::exp(-c.gamma * e); }
// X rows must be distinct. Returns the final weights the reference reaches; checks everything on the way.
template <class L> Mat follow(const L& loss, const Cfg& c, const Mat& X, const Vec& y, const Mat& x0, bool threw, const std::string& what) {
  long n = X.rows(), bs = std::min<long>(c.batch, n), nb = n / bs; Mat w = x0, vel = Mat::Zero(w.rows(), w.cols()), q = vel; std::vector<Mat> hist(nb, vel); double u = 0;
  auto& K = calls(); size_t at = 0; std::set<long> counts{0}; double best = INFINITY; bool done = false;
  for (long e = 0; e < c.max_iter && !done; ++e) {
    double lr = rate(c, e), sum = 0; std::set<long> used; std::vector<long> order;
    for (long j = 0; j < nb; ++j) {
      MC_CHECK(at < K.size(), what << ": stopped inside epoch " << e << " after " << at << " batches"); const Call& k = K[at++];
      MC_CHECK(k.X.rows() == bs && k.y.size() == bs, what << ": batch of " << k.X.rows() << " samples, expected " << bs);
      for (long i = 0; i < bs; ++i) { long id = -1; for (long s = 0; s < n; ++s) if (k.X.row(i) == X.row(s)) id = s; MC_CHECK(id >= 0, what << ": batch contains a row that is not in the data: " << mc::str(k.X.row(i))); MC_CHECK(k.y(i) == y(id), what << ": sample " << id << " carries label " << k.y(i) << " instead of " << y(id)); MC_CHECK(used.insert(id).second, what << ": sample " << id << " appears twice in epoch " << e); order.push_back(id); }
      MC_CHECK(mc::nearM(k.w, w, 1e-8), what << ": epoch " << e << " batch " << j << ": gradient taken at " << mc::str(k.w) << ", recurrence is at " << mc::str(w)); w = k.w; // rounding differences are not to grow over the steps
      Mat g = loss.gradient(k.X, k.y, w); g = g.array().min(1e10).max(-1e10); mc::step();
      if (c.kind == SAG) { hist[j] = g; g.setZero(); for (auto& h : hist) g += h / (double)nb; }
      Mat pv = vel; vel = (c.policy ? c.mu : 0) * vel + lr * g; w = w - (c.policy == 2 ? Mat(vel + c.mu * (vel - pv)) : vel);
      if (c.kind == TG) { u += c.l1 * lr * c.alpha; for (long f = 0; f < w.rows(); ++f) { double z = w(f, 0); if (z > 0) w(f, 0) = std::max(0.0, z - (u + q(f, 0))); else if (z < 0) w(f, 0) = std::min(0.0, z + (u - q(f, 0))); q(f, 0) += w(f, 0) - z; MC_CHECK(std::fabs(q(f, 0)) <= u + 1e-9 * std::max(1.0, std::fabs(z)), "reference penalty"); } }
      sum += loss.evaluate(k.X, k.y, w); }
    if (!c.shuffle) for (size_t i = 0; i < order.size(); ++i) MC_CHECK(order[i] == (long)i, what << ": data order changed without shuffling");
    double thr = best - c.tol * bs, sc = 1e-9 * std::max(1.0, std::fabs(sum)); bool yes = sum > thr - sc, no = !(sum > thr + sc); if (std::isinf(best)) { yes = false; no = true; }
    std::set<long> nc; bool stop = false; for (long t : counts) { if (yes) { if (t + 1 >= c.nic) stop = true; else nc.insert(t + 1); } if (no) nc.insert(0); } if (c.nic == 0) stop = true;
    if (sum < best) best = sum; bool more = at < K.size();
    if (stop && nc.empty()) { MC_CHECK(!more, what << ": keeps training after epoch " << e << " although the loss has not improved for " << c.nic << " epochs"); done = true; }
    else if (stop) done = !more && (!threw || e + 1 < c.max_iter);
    else if (e + 1 < c.max_iter) MC_CHECK(more, what << ": stops after epoch " << e << " although the loss still improved");
    counts = nc; }
  MC_CHECK(at == K.size(), what << ": trains beyond the epoch budget of " << c.max_iter);
  MC_CHECK(threw == !done, what << (threw ? ": reports no convergence although it converged" : ": returns without convergence")); mc::validated(at + 1); return w;
}
inline Mat rows(int f, int k, long n) { Mat X(n, f); for (long i = 0; i < n; ++i) for (long j = 0; j < f; ++j) X(i, j) = k == 0 ? (j == 0 ? i - 1.0 : ((i * 3 + j) % 4) - 1) : k == 1 ? (j == 0 ? 0.5 * (i * i) + 1 : (i % 2 ? -1 : 2)) : (j == 0 ? 3 - i : 1); return X; }
inline Vec target(int k, long n) { Vec y(n); for (long i = 0; i < n; ++i) y(i) = k == 0 ? (i % 2 ? 1 : -1) : k == 1 ? 2.0 * i - 1 : (i == n - 1 ? 4 : 0.5); return y; }
template <class Opt> bool go(Opt& o, const Mat& X, const Vec& y) { calls().clear(); return mc::throws([&] { o.optimize(X, y); }); }
template <template <class, class, class, class> class O, class L, class U, class D, class... A> void runs(const L& loss, const U& up, const D& dec, const Cfg& c, const Mat& X, const Vec& y, const Mat& x0, bool again, const std::string& what, A... extra) {
  typedef O<double, Rec<L>, U, D> Opt; const Mat X0 = X; const Vec y0 = y; bool verbose = (c.batch + c.nic) % 2;
  std::unique_ptr<Opt> o(new Opt(x0, Rec<L>(loss), up, dec, c.max_iter, c.batch, c.nic, c.tol, extra..., c.shuffle, verbose)); bool t = go(*o, X, y); MC_CHECK(X == X0 && y == y0, what << ": optimize modified its data"); Mat w = follow(loss, c, X, y, x0, t, what);
  if (t) return; Mat g = o->get_coef(); MC_CHECK(mc::nearM(g, w, 1e-8), what << ": returned weights " << mc::str(g) << ", recurrence ends at " << mc::str(w)); if (!again) return;
  { mc::env_stream(5); Opt o2(x0, Rec<L>(loss), up, dec, c.max_iter, c.batch, c.nic, c.tol, extra..., c.shuffle, false); bool t2 = go(o2, X, y); Mat w2 = follow(loss, c, X, y, x0, t2, what + " (second object)"); if (!t2) MC_CHECK(mc::nearM(o2.get_coef(), w2, 1e-8), what << " (second object): returned weights " << mc::str(o2.get_coef()) << " not " << mc::str(w2)); MC_CHECK(o->get_coef() == g, what << ": another optimiser changed the result"); }
  Opt copy(*o); MC_CHECK(copy.get_coef() == g, what << ": a copy holds other weights");
  Mat X2 = X.topRows(std::max<long>(1, X.rows() - 1)) * 0.5; Vec y2 = y.head(X2.rows()); t = go(*o, X2, y2); Mat start = g; w = follow(loss, c, X2, y2, start, t, what + " (second call, continued)"); if (!t) MC_CHECK(mc::nearM(o->get_coef(), w, 1e-8), what << " (second call): returned weights " << mc::str(o->get_coef()) << " not " << mc::str(w));
  MC_CHECK(copy.get_coef() == g, what << ": running the original changed the weights of its copy"); bool tc = go(copy, X2, y2); w = follow(loss, c, X2, y2, start, tc, what + " (second call on a copy)"); if (!tc) MC_CHECK(mc::nearM(copy.get_coef(), w, 1e-8), what << " (second call on a copy): returned weights " << mc::str(copy.get_coef()) << " not " << mc::str(w));
}
template <template <class, class, class, class> class O, class L, class... A> void all(const L& loss, const Cfg& c, const Mat& X, const Vec& y, const Mat& x0, bool again, const std::string& what, A... extra) {
  typedef optimizer::VanillaUpdate<double> V; typedef optimizer::MomentumUpdate<double> M; typedef optimizer::NesterovMomentumUpdate<double> N; typedef optimizer::StepDecay<double> S; typedef optimizer::ExponentialDecay<double> E;
  S s0(c.lr, 1.0, 1000000), s1(c.lr, c.gamma, c.step); E e(c.lr, c.gamma); const S& s = c.decay == 0 ? s0 : s1;
  if (c.decay == 2) { if (c.policy == 0) runs<O>(loss, V(), e, c, X, y, x0, again, what, extra...); else if (c.policy == 1) runs<O>(loss, M(c.mu), e, c, X, y, x0, again, what, extra...); else runs<O>(loss, N(c.mu), e, c, X, y, x0, again, what, extra...); }
  else { if (c.policy == 0) runs<O>(loss, V(), s, c, X, y, x0, again, what, extra...); else if (c.policy == 1) runs<O>(loss, M(c.mu), s, c, X, y, x0, again, what, extra...); else runs<O>(loss, N(c.mu), s, c, X, y, x0, again, what, extra...); }
}
inline std::string show(const Cfg& c, const Mat& X, const Vec& y) { std::ostringstream o; o << (c.kind == SGD ? "SGD" : c.kind == SAG ? "SAG" : "TruncatedGradient") << "(batch " << c.batch << ", epochs " << c.max_iter << ", patience " << c.nic << ", tol " << c.tol << ", policy " << c.policy << ", decay " << c.decay << ", rate " << c.lr << ", alpha " << c.alpha << ", l1 " << c.l1 << ", shuffle " << c.shuffle << ") on X=" << mc::str(X) << " y=" << mc::str(y); return o.str(); }
// larger data, long budgets and the other losses
template <template <class, class, class, class> class O, class... A> void wide(Cfg c, A... extra) {
  int n = mc::size(3, 3, {40, 70, 130}, "n"), f = mc::size(1, 1, {5, 9, 17}, "f"); static const int B[] = {1, 8, 32, 64, 200}, EP[] = {1, 12, 60}; c.batch = mc::pick(B, "batch"); c.policy = mc::choose(3, "policy"); c.decay = mc::choose(3, "decay"); c.mu = 0.8; c.lr = 0.01; c.gamma = 0.7; c.step = 5; c.nic = mc::choose(2, "patience") ? 12 : 3; c.tol = 1e-5; c.max_iter = mc::pick(EP, "epochs"); c.shuffle = !(n == 40 && f == 5); if (c.batch == 1 && n * f > 700 && c.max_iter > 12) mc::prune();
  Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = j == 0 ? (i - n / 2) * 0.0625 : ((i * 7 + j * 3 + i * j) % 11 - 5) * 0.125; y(i) = 1 + X(i, 0) * 2 + (i % 3); } mc::state(n, f, c.batch, c.policy, c.decay, c.nic, c.max_iter); mc::env_stream(n); all<O>(loss::MSE<double>(0.01), c, X, y, Mat(Mat::Zero(f, 1)), n == 3 || (n == 40 && c.batch > 8), show(c, X, y), extra...);
}
template <template <class, class, class, class> class O, class... A> void losses(Cfg c, A... extra) {
  int n = mc::size(1, 4, {17}, "n"), f = mc::size(1, 2, {5}, "f"), l = mc::choose(3, "loss"); static const int B[] = {1, 2, 5}; c.batch = mc::pick(B, "batch"); c.policy = mc::choose(3, "policy"); c.decay = mc::choose(3, "decay"); c.mu = 0.5; c.lr = 0.2; c.gamma = 0.5; c.step = 2; c.nic = 1 + mc::choose(2, "patience"); c.tol = 1e-3; c.max_iter = 1 + 5 * mc::choose(2, "epochs"); c.shuffle = true; Mat X = rows(f, 0, n) * 0.5; Vec y(n); for (int i = 0; i < n; ++i) y(i) = l == 2 ? 0.5 * i - 1 : l == 1 ? (i % 3 ? 1 : -1) : i % 2; mc::state(n, f, l, c.batch, c.policy, c.decay, c.nic, c.max_iter); mc::env_stream(n + f); Mat x0(f, 1); for (int j = 0; j < f; ++j) x0(j, 0) = 0.25 - 0.5 * (j % 3); std::string w = show(c, X, y);
  if (l == 0) all<O>(loss::LogLoss<double>(0.1), c, X, y, x0, true, "log loss, " + w, extra...); else if (l == 1) all<O>(loss::HingeLoss<double>(0.1, 1.0), c, X, y, x0, true, "hinge loss, " + w, extra...); else all<O>(loss::HuberLoss<double>(0.1, 0.75), c, X, y, x0, true, "Huber loss, " + w, extra...);
}
// more than 255 steps of one epoch; the loss of each of them decides when training stops
template <template <class, class, class, class> class O, class... A> void many_batches(Cfg c, A... extra) {
  static const int N[] = {255, 256, 257, 300, 520}; int n = mc::pick(N, "n"), b = mc::choose(2, "batch"), d = mc::choose(3, "data"); c.batch = b ? 2 : 1; c.policy = mc::choose(3, "policy"); c.decay = 0; c.mu = 0.5; c.lr = d == 2 ? 0.002 : 0.02; c.gamma = 1; c.step = 1; c.nic = 1 + mc::choose(2, "patience"); c.tol = d == 1 ? 1e-3 : 0; c.max_iter = 6; c.shuffle = mc::choose(2, "shuffle"); if (n == 520 && b == 0 && c.policy != 0) mc::prune();
  Mat X(n, 1); Vec y(n); for (int i = 0; i < n; ++i) { X(i, 0) = 0.5 + i * 0.0009765625; y(i) = d == 0 ? (i < n - 256 / c.batch ? 3.0 : 0.25) : d == 1 ? 1 + 0.001 * i : (i * 7 % 11) * 0.5 - (i < 8 ? 40 : 0); } mc::state(n, c.batch, c.policy, c.nic, d, c.shuffle); mc::env_stream(n); all<O>(loss::MSE<double>(0.01), c, X, y, Mat(Mat::Zero(1, 1)), false, show(c, X, y), extra...);
}
// left-out arguments mean 2000 epochs, batches of 16, 20 or 24, patience 5, tolerance 1e-4 and shuffling
template <template <class, class, class, class> class O, class... A> void defaults(long batch, A... extra) {
  typedef loss::MSE<double> L; typedef optimizer::VanillaUpdate<double> V; typedef optimizer::StepDecay<double> S; typedef O<double, Rec<L>, V, S> Opt; int n = mc::size(1, 5, {20, 40}, "n"), k = mc::choose(3, "data"), d = mc::choose(2, "rate"); Mat X = rows(2, k, n) * 0.25; if (n > 5) for (int i = 0; i < n; ++i) X.row(i) << (i - n / 2) * 0.0625, (i * 7 % 5) * 0.3 - 0.4; Vec y = n > 5 ? Vec(X.col(0) * 2 - X.col(1)) : target(k, n); mc::state(n, k, d); mc::env_stream(3); S s(d ? 0.05 : 0.2, 0.9, 25); Mat x0 = Mat::Zero(2, 1); Opt a(x0, Rec<L>(L()), V(), s), b(x0, Rec<L>(L()), V(), s, 2000, batch, 5, 1e-4, extra..., true, true);
  bool ta = go(a, X, y); auto ca = calls(); mc::env_stream(3); bool tb = go(b, X, y); auto& cb = calls(); mc::step(2); bool same = ca.size() == cb.size(); for (size_t i = 0; same && i < ca.size(); ++i) same = ca[i].X == cb[i].X && ca[i].y == cb[i].y && mc::nearM(ca[i].w, cb[i].w, 1e-9); MC_LOG(mc::str(X) << mc::str(y)); MC_CHECK(ta == tb && same && (ta || mc::nearM(a.get_coef(), b.get_coef(), 1e-9)), "leaving out the optional arguments does not mean 2000 epochs, batches of " << batch << ", patience 5, tolerance 1e-4 and shuffling: " << ca.size() << " gradients instead of " << cb.size() << " on X=" << mc::str(X) << " y=" << mc::str(y)); mc::validated();
}
// hundreds to tens of thousands of epochs: budgets that run out, patience that does, rates that decay at late epochs
template <template <class, class, class, class> class O, class... A> void many_epochs(Cfg c, A... extra) {
  static const int EP[] = {255, 256, 300, 1001, 2049, 5003, 66000}; int ep = mc::pick(EP, "epochs"), how = mc::choose(3, "end"), n = 1 + mc::choose(2, "n"); c.batch = 1 + mc::choose(n, "batch"); c.policy = mc::choose(3, "policy"); c.decay = mc::choose(3, "decay"); c.shuffle = mc::choose(2, "shuffle"); if (ep == 66000 && (n == 2 || c.policy == 2 || c.decay == 1 || c.shuffle)) mc::prune(); if (ep > 1001 && c.batch == 2 && c.shuffle) mc::prune(); c.mu = 0.5; c.lr = 2e-3; c.gamma = c.decay == 1 ? 0.7 : 1e-3; c.step = 100; c.tol = how == 2 ? 0 : 1e3; c.nic = how == 0 ? ep + 10 : how == 1 ? ep - 1 : 3; c.max_iter = how == 1 ? ep + 50 : ep;
  Mat X(n, 1); Vec y(n); X(0, 0) = 1; y(0) = 2; if (n == 2) { X(1, 0) = -0.5; y(1) = 0.75; } mc::state(ep, how, n, c.batch, c.policy, c.decay, c.shuffle); mc::env_stream(ep + n); MC_LOG(show(c, X, y)); all<O>(loss::MSE<double>(0.01), c, X, y, Mat(Mat::Zero(1, 1)), false, show(c, X, y), extra...); }
}
