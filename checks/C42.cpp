// flags: -O0
// with: estimators_float core_double core_float estimators_double
//# every estimator (31 configurations) and 12 programmes over the core functions, optimizers, losses, metrics and trees, each instantiated for float and for double with the same draws: every matrix of 4 rows x 1 feature over {0,1,2.5} and 4 x 2 over {0,1} with every labelling in two classes and patterned real targets
//# 5..20, 33, 67, 130 rows with 1..4 and 17 features and four fills (offset data included)
//! a case counts where the double answer itself moves by less than 1e-3 when the data move by 1e-6, and the two answers must then agree to 2e-3
#include "elements.hpp"
using namespace c42;
namespace {
const int JOBS = 31 + 12;
// 0: answered, 1: rejected
template <class T> int ask(int v, const Data& d, Out& o, S& name, S& why) { mc::env_stream(3); try { name = v < 31 ? (sizeof(T) == 4 ? estimators_float : estimators_double)(v, d, o) : (sizeof(T) == 4 ? core_float : core_double)(v - 31, d, o); return 0; } catch (const mc::EigenAssert& e) { mc::fail(std::string(sizeof(T) == 4 ? "float" : "double") + " job " + std::to_string(v) + " aborts: " + e.what()); } catch (const std::exception& e) { why = e.what(); return 1; } }
void compare(int v, const Data& d) {
  Out a, f; S name = "job " + std::to_string(v), why, whyf; int ra = ask<double>(v, d, a, name, why); mc::step();
  std::vector<double> dev(a.size(), 0); bool stable = true; for (int p = 0; p < 3 && stable && !ra; ++p) { Data e = d; for (long i = 0; i < e.X.size(); ++i) e.X.data()[i] += 1e-6 * (1 + std::fabs(e.X.data()[i])) * (((i * (p + 2) + p) % 5) - 2) / 2; for (long i = 0; i < e.real.size(); ++i) e.real(i) += 1e-6 * (((i * (p + 3)) % 3) - 1); for (long i = 0; i < e.Q.size(); ++i) e.Q.data()[i] += 1e-6 * (((i * (p + 2)) % 3) - 1); Out b; S n, w; if (ask<double>(v, e, b, n, w) || b.size() != a.size()) stable = false; else for (std::size_t i = 0; i < a.size(); ++i) { double x = std::fabs(a[i] - b[i]); if (!(x <= 1e-3 * (1 + std::fabs(a[i]))) && !(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) stable = false; else if (std::isfinite(x)) dev[i] = std::max(dev[i], x); } }
  for (double x : a) if (std::isnan(x) || (std::fabs(x) > 1e8 && std::isfinite(x))) stable = false; if (!stable) mc::prune();
  int rf = ask<float>(v, d, f, name, whyf); mc::step(); S h = name + " on " + mc::str(d.X) + " targets " + mc::str(d.real) + " classes " + mc::str(d.cls); MC_LOG(h);
  MC_CHECK(ra == rf, h << ": " << (ra ? "double rejects (" + why + ") and float does not" : "float rejects (" + whyf + ") and double does not"));
  if (!ra) { MC_CHECK(a.size() == f.size(), h << ": answers of different sizes " << a.size() << " and " << f.size()); for (std::size_t i = 0; i < a.size(); ++i) if (!(std::isnan(a[i]) && std::isnan(f[i]))) MC_CHECK(a[i] == f[i] || std::fabs(a[i] - f[i]) <= 2e-3 * (1 + std::fabs(a[i])) + (v < 4 || v == 32 ? 500 : 30) * dev[i], h << ": value " << i << " is " << f[i] << " in single precision and " << a[i] << " in double\n  float  " << mc::str(f) << "\n  double " << mc::str(a)); }
  mc::validated();
}
void targets(Data& d) { long n = d.X.rows(); d.real.resize(n); for (long i = 0; i < n; ++i) d.real(i) = 1.5 * d.X(i, 0) - 0.75 * d.X(i, d.X.cols() - 1) + ((i * i) % 5) * 0.25 - 1; long f = d.X.cols(); d.Q.resize(4, f); d.Q.row(0) = d.X.row(0); d.Q.row(1) = d.X.row(n - 1).array() + 0.3125; d.Q.row(2) = d.X.row(n / 2).array() - 0.4375; for (long j = 0; j < f; ++j) d.Q(3, j) = 1.4375 + 0.6875 * j; d.Q = d.Q.cwiseAbs(); }
}
MC_SCENARIO(small, 3) { static const double V[] = {0, 1, 2.5}; int v = mc::choose(JOBS, "job"), f = 1 + mc::choose(2, "features"); Data d; d.X.resize(4, f); for (int i = 0; i < 4 * f; ++i) d.X.data()[i] = f == 1 ? mc::pick(V) : V[mc::choose(2, "x")]; d.cls.resize(4); bool labels = (v >= 6 && v <= 15) || v == 18 || v == 19 || v == 22 || v == 23 || v == 29 || v == 30 || (v >= 31 && (v - 31 == 3 || v - 31 == 6 || v - 31 >= 9)); if (labels) { for (int i = 0; i < 4; ++i) d.cls(i) = i == 0 ? 0 : mc::choose(2, "class"); if (d.cls.sum() == 0) mc::prune(); } else d.cls << 0, 1, 1, 0; d.bin = d.cls; targets(d); mc::state(v, d.X, d.cls); compare(v, d); }
MC_SCENARIO(sizes, 3) { int v = mc::choose(JOBS, "job"), n = mc::size(5, mc::thorough() ? 32 : 20, {33, 67, 130}, "rows"), F = mc::choose(5, "features"), fill = mc::choose(4, "fill"); int f = F == 4 ? 17 : F + 1; Data d; d.X.resize(n, f); d.cls.resize(n); d.bin.resize(n); for (int i = 0; i < n; ++i) { d.cls(i) = (i * 7 + i / 3) % 3; d.bin(i) = (i * 5 + i / 2) % 2; for (int j = 0; j < f; ++j) d.X(i, j) = fill == 0 ? ((i * (3 + 2 * j) + j * j) % 7) * 0.5 + 0.25 * (i % 3) : fill == 1 ? ((i * i + (j + 1) * i) % 11) * 0.25 + (j == 0 ? 2 * d.cls(i) : 0) : fill == 2 ? (v < 14 || v == 32 || v > 38 ? 2 : 64) + ((i * (5 + j)) % 13) * 0.5 + (j % 2) * d.bin(i) : ((i * (j + 2) + i * i / 3) % 9) * (j + 1) * 0.0625; } targets(d); mc::state(v, d.X); compare(v, d); }
