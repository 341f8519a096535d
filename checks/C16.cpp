// flags: -O1
//# schedules: base rate over {0.1,1,3}, factor/gamma over {0,0.1,0.5,1}, step size 1..6, every epoch 0..59 in every call order of up to three epochs; update rules: every sequence of up to 4 (thorough 5) steps on 1x1, 2x1 and 1x2 weights with gradients over {-1,0,2} and rates {0.5,1}, mu over {0,0.5,0.9}, always with a second object of the same kind updated in between
//! epochs are counted from one: the call for index e (from zero) belongs to epoch e + 1
//# up to 300 updates on 1x1..40x3 weights with two interleaved objects, copies taken on the way; every epoch up to 2000
//# every sequence of up to three weight shapes out of 1x1, 2x1, 1x2, 3x1, 3x2, two updates each, on one update rule
#include "core.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
using namespace openml;
namespace {
template <class U> void run(U a, U b, double mu, bool momentum, bool nesterov, const char* name) {
  int sh = mc::choose(3, "shape"), r = sh == 1 ? 2 : 1, c = sh == 2 ? 2 : 1, T = mc::thorough() ? 5 : 4; static const double G[] = {-1, 0, 2};
  Mat w = Mat::Constant(r, c, 1), v = Mat::Zero(r, c), ref = w, other = Mat::Constant(r, c, -3), ov = v, oref = other; int steps = 1 + mc::choose(T, "steps");
  for (int t = 0; t < steps; ++t) { Mat g(r, c); g(0) = mc::pick(G, "g"); if (g.size() > 1) g(1) = G[(mc::choose(2, "g2") + t) % 3]; double lr = mc::choose(2, "lr") ? 1 : 0.5; const Mat w0 = w, g0 = g;
    Mat nw = a.update(w, g, lr); mc::step(); MC_CHECK(w == w0 && g == g0, name << " update modified its arguments"); Mat pv = v; v = momentum ? Mat(mu * v + lr * g) : Mat(lr * g); ref = ref - (nesterov ? Mat(v + mu * (v - pv)) : v); MC_CHECK(mc::nearM(nw, ref, 1e-10), name << " (mu=" << mu << ") weights after step " << t + 1 << " with gradient " << mc::str(g) << " rate " << lr << " are " << mc::str(nw) << " not " << mc::str(ref)); w = nw;
    Mat h = Mat::Constant(r, c, 1.0 - t); Mat no = b.update(other, h, 0.25); mc::step(); Mat po = ov; ov = momentum ? Mat(mu * ov + 0.25 * h) : Mat(0.25 * h); oref = oref - (nesterov ? Mat(ov + mu * (ov - po)) : ov); MC_CHECK(mc::nearM(no, oref, 1e-10), name << ": a second object is at " << mc::str(no) << " not " << mc::str(oref)); other = no; }
  mc::state(name, mu, w, v); mc::validated(2 * steps);
}
}
MC_SCENARIO(plain, 2) { run(optimizer::VanillaUpdate<double>(), optimizer::VanillaUpdate<double>(), 0, false, false, "plain"); }
MC_SCENARIO(momentum, 3) { static const double M[] = {0, 0.5, 0.9}; double mu = mc::pick(M, "mu"); run(optimizer::MomentumUpdate<double>(mu), optimizer::MomentumUpdate<double>(mu), mu, true, false, "momentum"); }
MC_SCENARIO(nesterov, 3) { static const double M[] = {0, 0.5, 0.9}; double mu = mc::pick(M, "mu"); run(optimizer::NesterovMomentumUpdate<double>(mu), optimizer::NesterovMomentumUpdate<double>(mu), mu, true, true, "Nesterov"); }
namespace { const int p = 1; const double B[] = {0.1, 1, 3}, F[] = {0, 0.1, 0.5, 1}; }
MC_SCENARIO(step_decay, 3) { double b = mc::pick(B, "base"), f = mc::pick(F, "factor"); int s = 1 + mc::choose(6, "step"), e1 = mc::choose(60, "epoch"), e2 = mc::choose(8, "then") * 7; optimizer::StepDecay<double> d(b, f, s), o(2, 0.25, 3), df(b); auto want = [&](double b_, double f_, int s_, int e) { return b_ * std::pow(f_, (e + p) / s_); }; mc::state(b, f, s, e1); for (int e : {e1, e2, e1}) { double v = d.compute(e); MC_CHECK(mc::near(v, want(b, f, s, e), 1e-12), "step decay base " << b << " factor " << f << " step " << s << " at epoch " << e << " is " << v << " not " << want(b, f, s, e)); MC_CHECK(mc::near(o.compute(e + 1), want(2, 0.25, 3, e + 1), 1e-12), "second object"); MC_CHECK(mc::near(df.compute(e), want(b, 0.5, 10, e), 1e-12), "default factor and step at epoch " << e); MC_CHECK(v >= 0 && v <= b && d.compute(e + 1) <= v, "the rate increases"); mc::step(4); mc::validated(3); } }
MC_SCENARIO(exponential_decay, 3) { double b = mc::pick(B, "base"), g = mc::pick(F, "gamma"); int e1 = mc::choose(60, "epoch"), e2 = mc::choose(8, "then") * 7; optimizer::ExponentialDecay<double> d(b, g), o(2, 0.25), df(b); mc::state(b, g, e1); for (int e : {e1, e2, e1}) { double v = d.compute(e); MC_CHECK(std::fabs(v - b * std::exp(-g * e)) <= 1e-12 * v + 1e-300, "exponential decay base " << b << " gamma " << g << " at epoch " << e << " is " << v); MC_CHECK(mc::near(o.compute(e + 1), 2 * std::exp(-0.25 * (e + 1)), 1e-12), "second object"); MC_CHECK(mc::near(df.compute(e), b * std::exp(-0.5 * e), 1e-12), "default gamma"); MC_CHECK(v >= 0 && v <= b && d.compute(e + 1) <= v, "the rate increases"); mc::step(4); mc::validated(3); } }
MC_SCENARIO(defaults, 1) { int e = mc::choose(40, "epoch"); optimizer::StepDecay<double> s; optimizer::ExponentialDecay<double> x; mc::state(e); MC_CHECK(mc::near(s.compute(e), 0.1 * std::pow(0.5, (e + p) / 10), 1e-12) && mc::near(x.compute(e), 0.1 * std::exp(-0.5 * e), 1e-12), "default schedules at epoch " << e << ": " << s.compute(e) << " " << x.compute(e)); mc::step(2); mc::validated(2); }
namespace {
template <class U> void longrun(U a, U b, double mu, bool momentum, bool nesterov, const char* name) {
  int r = mc::size(1, 1, {3, 17, 40}, "r"), c = mc::size(1, 1, {3}, "c"), T = mc::size(20, 20, {100, 300}, "steps"), cp = mc::choose(3, "copy"); Mat w = Mat::Constant(r, c, 1), v = Mat::Zero(r, c), ref = w, o = w * -2, ov = v, oref = o;
  for (int t = 0; t < T; ++t) { Mat g(r, c); for (int i = 0; i < r * c; ++i) g.data()[i] = ((i * 5 + t * 3) % 7 - 3) * 0.37; double lr = 0.1 / (1 + t % 5), scale = std::max(1.0, ref.cwiseAbs().maxCoeff());
    auto stepref = [&](Mat& x, Mat& vel, const Mat& gr, double rate) { Mat pv = vel; vel = momentum ? Mat(mu * vel + rate * gr) : Mat(rate * gr); x = x - (nesterov ? Mat(vel + mu * (vel - pv)) : vel); };
    if (cp && t == T / 2) { U k = a; if (cp == 1) { Mat kw = w, kr = ref, kv = v; for (int q = 0; q < 3; ++q) { kw = k.update(kw, g, lr); stepref(kr, kv, g, lr); MC_CHECK((kw - kr).cwiseAbs().maxCoeff() < 1e-9 * scale, name << ": a copy continues at " << mc::str(kw) << " instead of " << mc::str(kr)); } } else { k.update(w, g * 3, lr); a = k; k.update(w, g, 1); stepref(ref, v, g * 3, lr); ref = w; } }
    w = a.update(w, g, lr); stepref(ref, v, g, lr); MC_CHECK((w - ref).cwiseAbs().maxCoeff() < 1e-9 * scale, name << " (mu=" << mu << ") after " << t + 1 << " of " << T << " updates of a " << r << "x" << c << " weight: " << mc::str(w) << " instead of " << mc::str(ref));
    if (t % 3 == 0) { o = b.update(o, -g, 0.5); stepref(oref, ov, -g, 0.5); MC_CHECK((o - oref).cwiseAbs().maxCoeff() < 1e-9 * std::max(1.0, oref.cwiseAbs().maxCoeff()), name << ": a second object is at " << mc::str(o)); } }
  mc::step(T); mc::validated(T); mc::state(name, mu, r, c, T, cp); MC_LOG(name << " " << r << "x" << c << " " << T);
}
}
MC_SCENARIO(long_runs, 3) { int k = mc::choose(3, "rule"); static const double M[] = {0, 0.3, 0.9, 0.99}; double mu = mc::pick(M, "mu"); if (k == 0) longrun(optimizer::VanillaUpdate<double>(), optimizer::VanillaUpdate<double>(), 0, false, false, "plain"); else if (k == 1) longrun(optimizer::MomentumUpdate<double>(mu), optimizer::MomentumUpdate<double>(mu), mu, true, false, "momentum"); else longrun(optimizer::NesterovMomentumUpdate<double>(mu), optimizer::NesterovMomentumUpdate<double>(mu), mu, true, true, "Nesterov"); }
MC_SCENARIO(long_schedules, 2) { static const double Fa[] = {0.99, 0.5, 0.3}, G[] = {1e-3, 0.01, 0.2}; double f = mc::pick(Fa, "factor"), g = mc::pick(G, "gamma"); int s = mc::size(1, 1, {7, 10, 100, 1000}, "step"), e0 = mc::choose(20, "block") * 100; optimizer::StepDecay<double> d(0.7, f, s); optimizer::ExponentialDecay<double> x(0.7, g); mc::state(f, g, s, e0); MC_LOG(f << " " << g << " " << s << " " << e0); double pd = 1e300, px = 1e300; for (int e = e0; e < e0 + 101; ++e) { double a = d.compute(e), b = x.compute(e), wa = 0.7 * std::pow(f, (e + p) / s), wb = 0.7 * std::exp(-g * e); MC_CHECK(std::fabs(a - wa) <= 1e-9 * wa + 1e-300, "step decay factor " << f << " step " << s << " at epoch " << e << " is " << a << " not " << wa); MC_CHECK(std::fabs(b - wb) <= 1e-9 * wb + 1e-300, "exponential decay gamma " << g << " at epoch " << e << " is " << b << " not " << wb); MC_CHECK(a <= pd && b <= px && a >= 0 && b >= 0, "the rate increases at epoch " << e); pd = a; px = b; } mc::step(202); mc::validated(202); }
namespace {
template <class U> void reshape(U a, double mu, bool momentum, bool nesterov, const char* name) { static const int S[][2] = {{1, 1}, {2, 1}, {1, 2}, {3, 1}, {3, 2}}; int old = -1; Mat v; for (int t = 0; t < 3; ++t) { int z = mc::choose(5, "shape"), r = S[z][0], c = S[z][1]; Mat w = Mat::Constant(r, c, 1 + t), ref = w; if (z != old) v = Mat::Zero(r, c); old = z; for (int q = 0; q < 2; ++q) { Mat g(r, c); for (int i = 0; i < r * c; ++i) g.data()[i] = i + q + 1; w = a.update(w, g, 0.5); Mat pv = v; v = momentum ? Mat(mu * v + 0.5 * g) : Mat(0.5 * g); ref = ref - (nesterov ? Mat(v + mu * (v - pv)) : v); mc::step(); MC_CHECK(w.rows() == r && w.cols() == c && mc::nearM(w, ref, 1e-10), name << " rule: weights of shape " << r << "x" << c << " in run " << t << " are " << mc::str(w) << " not " << mc::str(ref)); mc::validated(); } mc::state(name, t, z); } }
}
MC_SCENARIO(shapes, 2) { int k = mc::choose(3, "rule"); if (k == 0) reshape(optimizer::VanillaUpdate<double>(), 0, false, false, "plain"); else if (k == 1) reshape(optimizer::MomentumUpdate<double>(0.5), 0.5, true, false, "momentum"); else reshape(optimizer::NesterovMomentumUpdate<double>(0.5), 0.5, true, true, "Nesterov"); }
