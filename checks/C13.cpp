// flags: -O1
//# entropy and gini: every label vector of length 1..8 over {0,1,2} (thorough 1..10), 1..6 over {-1.5,7,1e6,0.1}, every length 1..64 with 1..9 patterned classes; every weight vector over {0,0.5,1,2} for every label vector over {0,1,3} of length 1..4 (thorough 5); every wrong weight length
//# every label vector of length 1..4 over 8 labels that differ beyond float precision, within one integer, in sign, or beyond 2^31; lengths 65, 100, 257, 1000 with 1..64 classes
//# 1100, 2500, 6000 samples of which 1, 2 or 3 belong to each of 1, 2, 5 rare classes at the start, the end or spread, beside 1-3 common classes; unit weights, weights of 1e-6, 1e-3, 1e3 on the rare classes
//# 65537, 70000 and 140000 samples of which one class holds more than 65535, with 1, 2, 3, 300 and 70000 classes
//# label vectors of int, long, short and float entries (1..5 over 4 values that differ beyond double or float precision, and 40 to 300 patterned samples), unweighted and with weights 0, 1, 2
#include "core.hpp"
using namespace openml;
namespace {
void both(const Vec& x, const Vec& w, bool weighted) {
  std::vector<std::pair<double, double>> cl; double n = x.size();
  for (long i = 0; i < x.size(); ++i) { bool f = false; for (auto& c : cl) if (c.first == x(i)) { c.second += weighted ? w(i) : 1; f = true; } if (!f) cl.push_back({x(i), weighted ? w(i) : 1}); }
  double e = 0, g = 1; for (auto& c : cl) { double p = c.second / n; if (p > 0) e -= p * std::log(p) / std::log(2.0); g -= p * p; }
  const Vec x0 = x, w0 = w; MC_LOG("labels " << mc::str(x) << (weighted ? " weights " + mc::str(w) : "")); mc::state(x, w);
  double a = weighted ? math::entropy<Vec>(x, w) : math::entropy<Vec>(x), b = weighted ? math::gini<Vec>(x, w) : math::gini<Vec>(x); mc::step(2);
  MC_CHECK(x == x0 && w == w0, "inputs modified"); MC_CHECK(mc::near(a, e, 1e-10), "entropy of labels " << mc::str(x) << " weights " << mc::str(w) << " is " << a << " not " << e); MC_CHECK(mc::near(b, g, 1e-10), "gini of labels " << mc::str(x) << " weights " << mc::str(w) << " is " << b << " not " << g);
  if (!weighted) { MC_CHECK(a >= -1e-12 && a <= std::log2((double)cl.size()) + 1e-9, "entropy outside [0, log2 k]"); if (cl.size() == 1) MC_CHECK(std::fabs(a) < 1e-12 && std::fabs(b) < 1e-12, "a pure sample has entropy " << a << " gini " << b); double c = math::entropy<Vec>(x, Vec::Ones(x.size())), d = math::gini<Vec>(x, Vec::Ones(x.size())); MC_CHECK(mc::near(c, e, 1e-10) && mc::near(d, g, 1e-10), "unit weights change the value for " << mc::str(x)); mc::step(2); }
  mc::validated(2);
}
}
MC_SCENARIO(labels, 3) { int n = 1 + mc::choose(mc::thorough() ? 10 : 8, "n"); Vec x(n); for (int i = 0; i < n; ++i) x(i) = mc::choose(3, "label"); while (n++ < 2) mc::choose(1); both(x, Vec(), false); }
MC_SCENARIO(odd_labels, 2) { static const double V[] = {-1.5, 7, 1e6, 0.1}; int n = 1 + mc::choose(6, "n"); Vec x(n); for (int i = 0; i < n; ++i) x(i) = mc::pick(V, "label"); both(x, Vec(), false); }
MC_SCENARIO(lengths, 2) { int n = 1 + mc::choose(64, "n"), k = 1 + mc::choose(9, "k"), f = mc::choose(3, "fill"); Vec x(n); for (int i = 0; i < n; ++i) x(i) = f == 0 ? i % k : f == 1 ? (i * i + i / 3) % k - 4 : (i < n / 2 ? 0 : 1 + i % k); both(x, Vec(), false); Vec w(n); for (int i = 0; i < n; ++i) w(i) = 0.5 + (i * 7 % 5) * 0.25; both(x, w, true); }
MC_SCENARIO(weights, 3) { static const double L[] = {0, 1, 3}, W[] = {0, 0.5, 1, 2}; int n = 1 + mc::choose(mc::thorough() ? 5 : 4, "n"); Vec x(n), w(n); for (int i = 0; i < n; ++i) { x(i) = mc::pick(L, "label"); w(i) = mc::pick(W, "weight"); } both(x, w, true); }
MC_SCENARIO(mismatch, 2) { int n = 1 + mc::choose(5, "n"), m = 1 + mc::choose(6, "m"); if (n == m) mc::prune(); mc::state(n, m); Vec x = Vec::Zero(n), w = Vec::Ones(m); MC_CHECK(mc::throws([&] { math::entropy<Vec>(x, w); }), "entropy accepts " << m << " weights for " << n << " labels"); MC_CHECK(mc::throws([&] { math::gini<Vec>(x, w); }), "gini accepts " << m << " weights for " << n << " labels"); mc::step(2); mc::validated(2); }
MC_SCENARIO(fine_labels, 2) { static const double V[] = {0.25, 0.5, -0.25, 1, 1 + 1e-9, 16777217, 16777216, 4294967297.0}; int n = 1 + mc::choose(4, "n"); Vec x(n); for (int i = 0; i < n; ++i) x(i) = mc::pick(V, "label"); both(x, Vec(), false); Vec w(n); for (int i = 0; i < n; ++i) w(i) = 0.5 + i; both(x, w, true); }
MC_SCENARIO(long_samples, 2) { static const int N[] = {65, 100, 257, 1000}, K[] = {1, 2, 3, 7, 10, 16, 33, 64}; int n = mc::pick(N, "n"), k = mc::pick(K, "k"), f = mc::choose(3, "fill"); Vec x(n), w(n); for (int i = 0; i < n; ++i) { x(i) = f == 0 ? i % k : f == 1 ? (i * i + i / 3) % k * 0.5 - 4 : (i * 7 % n) * k / n * 1000.0; w(i) = 0.5 + (i * 7 % 5) * 0.25; } both(x, Vec(), false); both(x, w, true); }
MC_SCENARIO(rare_classes, 2) { static const int N[] = {1100, 2500, 6000}, R[] = {1, 2, 5}; static const double RW[] = {1, 1e-6, 1e-3, 1e3}; int n = mc::pick(N, "n"), r = mc::pick(R, "rare classes"), q = 1 + mc::choose(3, "size of a rare class"), k = 1 + mc::choose(3, "common classes"), o = mc::choose(3, "order"); double rw = mc::pick(RW, "weight of rare"); Vec x(n), w(n); for (int i = 0; i < n; ++i) { int p = o == 0 ? i : o == 1 ? n - 1 - i : (int)((long)i * 7 % n); bool rare = p < r * q; x(i) = rare ? 50 + p / q : (p % k) * (o == 2 ? -3 : 1); w(i) = rare ? rw : 1; } if (rw == 1) both(x, Vec(), false); both(x, w, true); }
MC_SCENARIO(very_long, 2) { static const int N[] = {65537, 70000, 140000}, K[] = {1, 2, 3, 300, 70000}; int n = mc::pick(N, "n"), k = mc::pick(K, "k"), f = mc::choose(2, "weights"); Vec x(n), w(n); std::vector<double> c(k, 0), u(k, 0); for (int i = 0; i < n; ++i) { int g = k <= 3 ? (i % 50 ? 0 : i / 50 % k) : i % k; x(i) = g * 0.5 - 7; w(i) = f ? 0.5 + (i * 7 % 5) * 0.25 : 1; c[g] += 1; u[g] += w(i); } mc::state(n, k, f); MC_LOG(n << " samples " << k << " classes"); double e = 0, g = 1, ew = 0, gw = 1; for (int q = 0; q < k; ++q) { double p = c[q] / n, r = u[q] / n; if (p > 0) { e -= p * std::log2(p); ew -= r * std::log2(r); } g -= p * p; gw -= r * r; }
  double a = math::entropy<Vec>(x), b = math::gini<Vec>(x), d = math::entropy<Vec>(x, w), h = math::gini<Vec>(x, w); mc::step(4); MC_CHECK(mc::near(a, e, 1e-8) && mc::near(b, g, 1e-8), "entropy/gini of " << n << " samples in " << k << " classes are " << a << ", " << b << " not " << e << ", " << g); MC_CHECK(mc::near(d, ew, 1e-8) && mc::near(h, gw, 1e-8), "weighted entropy/gini of " << n << " samples in " << k << " classes are " << d << ", " << h << " not " << ew << ", " << gw); mc::validated(4); }
namespace { template <class T> void typed_impurity(const char* name, const T (&A)[4]) {
  typedef Eigen::Matrix<T, -1, 1> V; V x, w; if (mc::choose(2, "kind") == 0) { int n = 1 + mc::choose(5, "n"); x.resize(n); for (int i = 0; i < n; ++i) x(i) = A[mc::choose(4, "label")]; } else { static const int N[] = {40, 130, 300}; int n = mc::pick(N, "n"), k = 1 + mc::choose(12, "k"); x.resize(n); for (int i = 0; i < n; ++i) x(i) = T((i * 7 + i / 9) % k - 3); } int n = (int)x.size(), f = mc::choose(3, "weights"); w.resize(f ? n : 0); for (int i = 0; i < w.size(); ++i) w(i) = f == 1 ? T(1) : T((i * 5 + 1) % 3);
  std::map<T, double> c; for (int i = 0; i < n; ++i) c[x(i)] += f ? (double)w(i) : 1; double e = 0, g = 1; for (auto& q : c) { double p = q.second / n; if (p > 0) e -= p * std::log2(p); g -= p * p; } std::string h = std::string(" of ") + name + " labels"; for (int i = 0; i < n; ++i) h += " " + std::to_string(x(i)); h += " weights " + std::to_string(f); MC_LOG(h); mc::state(h); double a = f ? math::entropy<V>(x, w) : math::entropy<V>(x), b = f ? math::gini<V>(x, w) : math::gini<V>(x); mc::step(2);
  MC_CHECK(mc::near(a, e, 1e-10), "entropy" << h << " is " << a << " not " << e); MC_CHECK(mc::near(b, g, 1e-10), "gini" << h << " is " << b << " not " << g); mc::validated(2); } }
MC_SCENARIO(element_types, 2) { static const int I[] = {0, -3, 2147483647, 2147483646}; static const long G[] = {0, -3, 1L << 53, (1L << 53) + 1}; static const short S[] = {0, 1, 32767, 255}; static const float F[] = {0, 0.25f, 1, 1.0000001f}; switch (mc::choose(4, "type")) { case 0: return typed_impurity<int>("int", I); case 1: return typed_impurity<long>("long", G); case 2: return typed_impurity<short>("short", S); default: return typed_impurity<float>("float", F); } }
