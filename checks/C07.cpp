// flags: -O1
//# every matrix of shape r x c with r*c <= 6 (thorough 8) over {-1,0,0.5,3}, each also shifted by 0, 7 and 1e7; every shape 1..30 x 1..10 with three patterned fillings and offsets 0, -40, 1e8
//# all of sum, mean, var, median, cumsum (axes 0,1,-1), mode, norm2 (axes 0,1), cov (n >= 2), center, power, sign, abs; unknown axes for sum/mean/var
//! tolerance 1e-9 relative for offset-free data; for shifted data var/cov are compared at 1e-14*(offset/scale)^1 level, i.e. what a numerically stable formula achieves
//# every matrix of 2..3 entries and 2 x 2 (thorough: also 1 x 4, 4 x 1) over 7 doubles that differ beyond float precision, within one integer or in sign only; every function on data scaled by powers of two from 2^-200 to 2^200 (each result scales accordingly); every shape out of 1..3, 17, 33, 70, 300 rows x 1..3, 9, 17, 33 columns; default axes
//# columns and rows of 256, 257, 600, 65536, 65537 and 70000 entries (nearly constant, two-valued, many-valued) through every function
//# sum, cumsum, mode and odd medians of matrices of int, long and short entries, and sum, mean, var, median, cumsum, mode, norm2, centre, power, sign, abs of float entries: every 1..3 x 1..2 matrix over 4 values and shapes up to 20 x 9
#include "core.hpp"
using namespace openml;
namespace {
typedef long double LD;
std::vector<std::vector<LD>> lanes(const Mat& X, int axis) { std::vector<std::vector<LD>> L; if (axis == 0) for (int j = 0; j < X.cols(); ++j) { L.emplace_back(); for (int i = 0; i < X.rows(); ++i) L.back().push_back(X(i, j)); } else if (axis == 1) for (int i = 0; i < X.rows(); ++i) { L.emplace_back(); for (int j = 0; j < X.cols(); ++j) L.back().push_back(X(i, j)); } else { L.emplace_back(); for (int i = 0; i < X.rows(); ++i) for (int j = 0; j < X.cols(); ++j) L.back().push_back(X(i, j)); } return L; }
LD mean(const std::vector<LD>& v) { LD s = 0; for (LD x : v) s += x; return s / v.size(); }
LD var(const std::vector<LD>& v) { LD m = mean(v), s = 0; for (LD x : v) s += (x - m) * (x - m); return s / v.size(); }
template <class M> double at(const M& m, int axis, int k) { return m.data()[k]; }
void expect_shape(const Mat& m, int axis, const Mat& X, const char* f) { long r = axis == 1 ? X.rows() : 1, c = axis == 0 ? X.cols() : 1; MC_CHECK(m.rows() == r && m.cols() == c, f << "(axis=" << axis << ") of a " << X.rows() << "x" << X.cols() << " matrix has shape " << m.rows() << "x" << m.cols()); }
void all(const Mat& X, double off) {
  const Mat X0 = X; MC_LOG("X=" << mc::str(X)); mc::state(X); double scale = std::max(1.0, std::fabs(off)); double vt = 1e-9 * scale * (scale > 1 ? 1e-5 : 1);  // absolute tolerance of spread quantities
  for (int axis = -1; axis < 2; ++axis) {
    auto L = lanes(X, axis); Mat s = math::sum<Mat>(X, axis), m = math::mean<Mat>(X, axis), v = math::var<Mat>(X, axis); Vec md = math::median<Mat, Vec>(X, axis); Mat cs = math::cumsum<Mat, Vec>(X, axis); mc::step(5); mc::validated(5);
    expect_shape(s, axis, X, "sum"); expect_shape(m, axis, X, "mean"); expect_shape(v, axis, X, "var"); MC_CHECK(md.size() == (long)L.size(), "median size");
    for (std::size_t k = 0; k < L.size(); ++k) {
      auto& l = L[k]; LD sm = 0; for (LD x : l) sm += x; auto q = l; std::sort(q.begin(), q.end()); LD med = q.size() % 2 ? q[q.size() / 2] : (q[q.size() / 2 - 1] + q[q.size() / 2]) / 2;
      MC_CHECK(mc::near(s.data()[k], sm), "sum(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << s.data()[k] << " not " << (double)sm);
      MC_CHECK(mc::near(m.data()[k], mean(l)), "mean(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << m.data()[k] << " not " << (double)mean(l));
      MC_CHECK(mc::near(md(k), med, 1e-12), "median(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << md(k) << " not " << (double)med);
      double rv = var(l); MC_CHECK(v.data()[k] >= 0 && std::fabs(v.data()[k] - rv) <= 1e-9 * std::max(1.0, rv) + vt, "var(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << v.data()[k] << " not " << rv);
    }
    if (axis == -1) { MC_CHECK(cs.size() == X.size(), "cumsum(-1) size"); LD t = 0; for (long i = 0; i < X.size(); ++i) { t += L[0][i]; MC_CHECK(mc::near(cs.data()[i], t), "cumsum(-1) of " << mc::str(X) << " is " << mc::str(cs)); } }
    else { MC_CHECK(cs.rows() == X.rows() && cs.cols() == X.cols(), "cumsum shape"); for (std::size_t k = 0; k < L.size(); ++k) { LD t = 0; for (std::size_t i = 0; i < L[k].size(); ++i) { t += L[k][i]; MC_CHECK(mc::near(axis == 0 ? cs(i, k) : cs(k, i), t), "cumsum(axis=" << axis << ") of " << mc::str(X) << " is " << mc::str(cs)); } } }
    if (axis >= 0) {
      Mat mo, ct; std::tie(mo, ct) = math::mode<Mat>(X, axis); Vec nn = math::norm2<Mat, Vec>(X, axis); mc::step(2); expect_shape(mo, axis, X, "mode"); expect_shape(ct, axis, X, "mode count"); MC_CHECK(nn.size() == (long)L.size(), "norm2 size");
      for (std::size_t k = 0; k < L.size(); ++k) { std::map<double, int> c; int best = 0; LD q = 0; for (LD x : L[k]) { best = std::max(best, ++c[(double)x]); q += x * x; }
        MC_CHECK(c.count(mo.data()[k]) && c[mo.data()[k]] == best && ct.data()[k] == best, "mode(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << mo.data()[k] << " x" << ct.data()[k] << ", the largest count is " << best);
        if (best == 1) MC_CHECK(mo.data()[k] == c.begin()->first, "mode(axis=" << axis << ") of all-distinct values in " << mc::str(X) << " lane " << k << " is " << mo.data()[k] << ", not the smallest");
        MC_CHECK(mc::near(nn(k), std::sqrt((double)q)), "norm2(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << nn(k)); } mc::validated(2); }
  }
  auto L = lanes(X, 0); Mat c = math::center<Mat>(X); mc::step(); MC_CHECK(c.rows() == X.rows() && c.cols() == X.cols(), "center shape"); for (int j = 0; j < X.cols(); ++j) for (int i = 0; i < X.rows(); ++i) MC_CHECK(std::fabs(c(i, j) - (double)(X(i, j) - mean(L[j]))) <= 1e-9 + vt, "center of " << mc::str(X) << " is " << mc::str(c));
  if (X.rows() >= 2) { Mat C = math::cov<Mat>(X); mc::step(); MC_CHECK(C.rows() == X.cols() && C.cols() == X.cols(), "cov shape"); for (int a = 0; a < X.cols(); ++a) for (int b = 0; b < X.cols(); ++b) { LD s = 0; for (int i = 0; i < X.rows(); ++i) s += (X(i, a) - mean(L[a])) * (X(i, b) - mean(L[b])); double w = s / (X.rows() - 1); MC_CHECK(std::fabs(C(a, b) - w) <= 1e-9 * std::max(1.0, std::fabs(w)) + vt, "cov of " << mc::str(X) << " entry " << a << "," << b << " is " << C(a, b) << " not " << w); } }
  Mat ab = math::abs<Mat>(X), sg = math::sign<Mat>(X); mc::step(2); for (double e : {2.0, 3.0, 1.0}) { Mat pw = math::power<Mat>(X, e); mc::step(); for (long i = 0; i < X.size(); ++i) MC_CHECK(mc::near(pw.data()[i], std::pow(X.data()[i], e)), "power(" << mc::str(X) << "," << e << ")=" << mc::str(pw)); }
  Mat rt = math::power<Mat>(ab, 0.5); mc::step(); for (long i = 0; i < X.size(); ++i) { double x = X.data()[i]; MC_CHECK(ab.data()[i] == std::fabs(x) && sg.data()[i] == (x > 0 ? 1 : x < 0 ? -1 : 0) && mc::near(rt.data()[i], std::sqrt(std::fabs(x))), "abs/sign/power of " << mc::str(X)); }
  MC_CHECK(X == X0, "input modified"); mc::validated(6);
}
}
MC_SCENARIO(small, 4) {
  static const double V[] = {-1, 0, 0.5, 3}, O[] = {0, 7, 1e7}; int r = 1 + mc::choose(6, "r"), c = 1 + mc::choose(6, "c"); if (r * c > (mc::thorough() ? 8 : 6)) mc::prune(); double o = mc::pick(O, "offset"); if (r * c == 8 && o == 7) mc::prune();
  Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = mc::pick(V, "x") + o; all(X, o);
}
MC_SCENARIO(shapes, 2) {
  static const double O[] = {0, -40, 1e8}; int r = 1 + mc::choose(30, "r"), c = 1 + mc::choose(10, "c"), k = mc::choose(3, "fill"); double o = mc::pick(O, "offset"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = o + (k == 0 ? (i * 5 + j * 3) % 4 : k == 1 ? ((i * 13 + j * 7) % 17) / 8.0 - 1 : (j + 1) * (i % 2 ? 1 : -1)); all(X, o);
}
MC_SCENARIO(bad_axis, 1) { static const int A[] = {2, -2, 5}; int a = mc::pick(A, "axis"); Mat X(2, 2); X << 1, 2, 3, 4; MC_CHECK(mc::throws([&] { math::sum<Mat>(X, a); }) && mc::throws([&] { math::mean<Mat>(X, a); }) && mc::throws([&] { math::var<Mat>(X, a); }), "axis " << a << " accepted"); mc::step(3); mc::validated(3); mc::state(a); MC_LOG(a); }
MC_SCENARIO(fine, 3) {
  static const double V[] = {1, 1 + 1e-9, 0.25, 16777217, -16777216.5, -0.0, 1e-280}; static const int RC[][2] = {{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {4, 1}, {1, 4}}; auto& s = RC[mc::choose(mc::thorough() ? 7 : 5, "shape")]; Mat X(s[0], s[1]); for (long i = 0; i < X.size(); ++i) X.data()[i] = mc::pick(V, "x"); all(X, 0);
}
MC_SCENARIO(larger, 2) {
  static const double O[] = {0, 1e6}; int r = mc::size(1, 3, {17, 33, 70, 300}, "r"), c = mc::size(1, 3, {9, 17, 33}, "c"), k = mc::choose(4, "fill"); double o = mc::pick(O, "offset"); if (r * c > 3000 && !mc::thorough()) mc::prune(); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = o + (k == 0 ? (i * 5 + j * 3) % 4 : k == 1 ? ((i * 13 + j * 7) % 17) / 8.0 - 1 : k == 2 ? i * c + j : (i * i + j * 5) % 23 * (j % 2 ? -0.5 : 0.5)); all(X, o);
}
MC_SCENARIO(scaled, 2) { // f(s*X) = s^d * f(X), s a power of two
  static const int E[] = {-200, -60, -30, 30, 60, 200}; int r = mc::size(1, 4, {17, 40}, "r"), c = mc::size(1, 3, {10}, "c"), k = mc::choose(4, "fill"); double s = std::ldexp(1.0, E[mc::choose(6, "scale")]); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 0 ? (i * 5 + j * 3) % 4 - 1 : k == 1 ? ((i * 13 + j * 7) % 17) / 8.0 - 1 : k == 2 ? (j + 1) * (i % 2 ? 1 : -1) : 5 + i + 0.25 * j; Mat Y = s * X; mc::state(X, s); MC_LOG(mc::str(X) << " * " << s);
  auto eq = [&](const Mat& a, const Mat& b, double t, const char* f) { MC_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), f << " shape"); double m = b.cwiseAbs().maxCoeff(), d = (a - t * b).cwiseAbs().maxCoeff(); MC_CHECK(mc::finite(a) && d <= 1e-11 * m * t, f << " of " << mc::str(X) << " scaled by " << s << " is " << mc::str(a) << ", not " << t << " times " << mc::str(b)); mc::step(2); mc::validated(); };
  for (int axis = -1; axis < 2; ++axis) { eq(math::sum<Mat>(Y, axis), math::sum<Mat>(X, axis), s, "sum"); eq(math::mean<Mat>(Y, axis), math::mean<Mat>(X, axis), s, "mean"); eq(math::var<Mat>(Y, axis), math::var<Mat>(X, axis), s * s, "var"); eq(math::median<Mat, Vec>(Y, axis), math::median<Mat, Vec>(X, axis), s, "median"); eq(math::cumsum<Mat, Vec>(Y, axis), math::cumsum<Mat, Vec>(X, axis), s, "cumsum");
    if (axis >= 0) { eq(math::norm2<Mat, Vec>(Y, axis), math::norm2<Mat, Vec>(X, axis), s, "norm2"); Mat a, b, p, q; std::tie(a, b) = math::mode<Mat>(Y, axis); std::tie(p, q) = math::mode<Mat>(X, axis); eq(b, q, 1, "mode count"); } }
  eq(math::center<Mat>(Y), math::center<Mat>(X), s, "center"); if (r > 1) eq(math::cov<Mat>(Y), math::cov<Mat>(X), s * s, "cov"); eq(math::abs<Mat>(Y), math::abs<Mat>(X), s, "abs"); eq(math::sign<Mat>(Y), math::sign<Mat>(X), 1, "sign"); eq(math::power<Mat>(Y, 2), math::power<Mat>(X, 2), s * s, "power");
}
MC_SCENARIO(defaults, 2) { int r = 2 + mc::choose(3, "r"), c = 2 + mc::choose(3, "c"), k = mc::choose(3, "fill"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = (i * 5 + j * 3 + k * i * j) % 7 - 1.5; mc::state(X); MC_LOG(mc::str(X)); auto eq = [&](const Mat& a, const Mat& b, const char* f) { MC_CHECK(mc::nearM(a, b), f << " without an axis of " << mc::str(X) << " is " << mc::str(a) << " not " << mc::str(b)); mc::step(2); mc::validated(); };
  eq(math::sum<Mat>(X), math::sum<Mat>(X, -1), "sum"); eq(math::mean<Mat>(X), math::mean<Mat>(X, -1), "mean"); eq(math::var<Mat>(X), math::var<Mat>(X, -1), "var"); eq(math::median<Mat, Vec>(X), math::median<Mat, Vec>(X, 0), "median"); eq(math::cumsum<Mat, Vec>(X), math::cumsum<Mat, Vec>(X, 0), "cumsum"); eq(math::norm2<Mat, Vec>(X), math::norm2<Mat, Vec>(X, 0), "norm2"); eq(std::get<0>(math::mode<Mat>(X)), std::get<0>(math::mode<Mat>(X, 0)), "mode"); }
MC_SCENARIO(very_long, 2) {
  static const int N[] = {256, 257, 600, 65536, 65537, 70000}; int n = mc::pick(N, "n"), k = mc::choose(4, "fill"), axis = mc::choose(2, "axis"); Vec x(n); for (int i = 0; i < n; ++i) x(i) = k == 0 ? 5 : k == 1 ? (i < 300 || i >= 600 ? 2 : 7) : k == 2 ? (i == n - 1 ? 1 : i % 2 ? 3 : -3) : (i * 7L) % 1001 * 0.5; Mat X = axis ? Mat(x.transpose()) : Mat(x); mc::state(n, k, axis); MC_LOG(n << " entries, fill " << k << " axis " << axis); std::vector<LD> l(x.data(), x.data() + n), q = l; std::sort(q.begin(), q.end()); LD m = mean(l), v = var(l), s = m * n, med = n % 2 ? q[n / 2] : (q[n / 2 - 1] + q[n / 2]) / 2, ss = 0, t = 0; std::map<double, int> c; int best = 0; for (LD a : l) { best = std::max(best, ++c[(double)a]); ss += a * a; } std::ostringstream h; h << " of " << n << " entries, fill " << k << ", axis ";
  for (int a : {axis, -1}) { auto one = [&](const Mat& r, LD w, const char* f) { MC_CHECK(r.size() == 1 && mc::near(r.data()[0], (double)w, 1e-9), f << h.str() << a << " is " << mc::str(r) << " not " << (double)w); mc::step(); mc::validated(); }; one(math::sum<Mat>(X, a), s, "sum"); one(math::mean<Mat>(X, a), m, "mean"); one(math::var<Mat>(X, a), v, "var"); one(math::median<Mat, Vec>(X, a), med, "median"); Mat cs = math::cumsum<Mat, Vec>(X, a); t = 0; MC_CHECK(cs.size() == n, "cumsum size"); for (int i = 0; i < n; ++i) { t += l[i]; MC_CHECK(std::fabs(cs.data()[i] - (double)t) <= 1e-9 * (1 + std::fabs((double)s)), "cumsum" << h.str() << a << " at " << i); }
    if (a >= 0) { one(math::norm2<Mat, Vec>(X, a), std::sqrt(ss), "norm2"); Mat mo, ct; std::tie(mo, ct) = math::mode<Mat>(X, a); one(ct, best, "mode count"); MC_CHECK(mo.size() == 1 && c.count(mo(0, 0)) && c[mo(0, 0)] == best, "mode" << h.str() << a << " is " << mo(0, 0)); } }
  Mat ce = math::center<Mat>(X); MC_CHECK(ce.rows() == X.rows() && ce.cols() == X.cols(), "center shape"); for (int i = 0; i < n; ++i) MC_CHECK(std::fabs(ce.data()[i] - (axis ? 0 : x(i) - (double)m)) <= 1e-9 * (1 + std::fabs((double)m)), "center" << h.str() << 0 << " at " << i); if (!axis) { Mat C = math::cov<Mat>(X); MC_CHECK(C.size() == 1 && mc::near(C(0, 0), (double)(v * n / (n - 1)), 1e-9), "cov" << h.str() << 0 << " is " << mc::str(C)); } mc::step(4); mc::validated(3);
}
namespace { template <class T> void typed_stats(const char* name, const Eigen::Matrix<T, -1, -1>& X) {
  typedef Eigen::Matrix<T, -1, -1> M; typedef Eigen::Matrix<T, -1, 1> V; const bool fl = !std::numeric_limits<T>::is_integer; const M X0 = X; int r = X.rows(), c = X.cols(); const double tol = fl ? 2e-5 : 0; std::string h = std::string(" of ") + name + " " + mc::str(Mat(X.template cast<double>())); MC_LOG(h); mc::state(name, X.template cast<double>().eval());
  for (int axis : {0, 1, -1}) { int lanes = axis == 0 ? c : axis == 1 ? r : 1, len = r * c / lanes; M S = math::sum<M>(X, axis), C = math::cumsum<M, V>(X, axis); M mo, co; if (axis >= 0) std::tie(mo, co) = math::mode<M>(X, axis); mc::step(3); MC_CHECK(S.size() == lanes && C.size() == r * c, "sum/cumsum size" << h);
    for (int k = 0; k < lanes; ++k) { std::vector<T> v; for (int i = 0; i < len; ++i) v.push_back(axis == 0 ? X(i, k) : axis == 1 ? X(k, i) : X(i / c, i % c)); long double s = 0, mag = 1; for (int i = 0; i < len; ++i) { s += v[i]; mag += std::fabs((long double)v[i]); T got = axis == 0 ? C(i, k) : axis == 1 ? C(k, i) : C.data()[i]; MC_CHECK(std::fabs((double)(got - s)) <= tol * mag, "cumsum(axis=" << axis << ")" << h << " lane " << k << " item " << i << " is " << (double)got << " not " << (double)s); } MC_CHECK(std::fabs((double)(S.data()[k] - s)) <= tol * mag, "sum(axis=" << axis << ")" << h << " lane " << k << " is " << (double)S.data()[k]);
      std::vector<T> w = v; std::sort(w.begin(), w.end()); if (axis >= 0) { int best = 0; for (T q : v) best = std::max(best, (int)std::count(v.begin(), v.end(), q)); MC_CHECK(mo.size() == lanes && co.size() == lanes && (int)co.data()[k] == best && std::count(v.begin(), v.end(), mo.data()[k]) == best, "mode(axis=" << axis << ")" << h << " lane " << k << " is " << (double)mo.data()[k] << " x " << (double)co.data()[k]); }
      if (len % 2 || fl) { V md = math::median<M, V>(X, axis); double want = len % 2 ? (double)w[len / 2] : ((double)w[len / 2] + (double)w[len / 2 - 1]) / 2; MC_CHECK(md.size() == lanes && std::fabs((double)md(k) - want) <= tol * mag, "median(axis=" << axis << ")" << h << " lane " << k << " is " << (double)md(k) << " not " << want); mc::step(); }
      if constexpr (!std::numeric_limits<T>::is_integer) { M mn = math::mean<M>(X, axis), vr = math::var<M>(X, axis); long double m = s / len, q = 0; for (T e : v) q += ((long double)e - m) * ((long double)e - m); q /= len; MC_CHECK(mn.size() == lanes && std::fabs((double)(mn.data()[k] - m)) <= tol * mag, "mean(axis=" << axis << ")" << h << " lane " << k << " is " << (double)mn.data()[k]); MC_CHECK(vr.size() == lanes && vr.data()[k] >= 0 && std::fabs((double)(vr.data()[k] - q)) <= tol * (q + mag), "var(axis=" << axis << ")" << h << " lane " << k << " is " << (double)vr.data()[k] << " not " << (double)q); mc::step(2); if (axis >= 0) { V nm = math::norm2<M, V>(X, axis); long double e2 = 0; for (T e : v) e2 += (long double)e * e; MC_CHECK(nm.size() == lanes && std::fabs((double)(nm(k) - std::sqrt(e2))) <= tol * mag, "norm2(axis=" << axis << ")" << h); mc::step(); } } } }
  M ab = math::abs<M>(X), sg = math::sign<M>(X); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(ab(i, j) == (X(i, j) < T(0) ? T(-X(i, j)) : X(i, j)) && sg(i, j) == T((X(i, j) > T(0)) - (X(i, j) < T(0))), "abs/sign" << h); MC_CHECK(X == X0, "input modified" << h); mc::step(2); mc::validated(10); }
template <class T> void typed_matrix(const char* name, const T (&A)[4]) { Eigen::Matrix<T, -1, -1> X; if (mc::choose(2, "kind") == 0) { int r = 1 + mc::choose(3, "r"), c = 1 + mc::choose(2, "c"); X.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = A[mc::choose(4, "x")]; } else { int r = 1 + mc::choose(20, "r"), c = 1 + mc::choose(9, "c"); X.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = T(T((i * 5 + j * 3) % 7) + A[(i * c + j) % 4]); } typed_stats<T>(name, X); } }
MC_SCENARIO(element_types, 2) { static const int I[] = {0, -3, 5, 1000000}; static const long G[] = {0, -3, 1L << 53, (1L << 53) + 1}; static const short S[] = {0, -3, 5, 120}; static const float F[] = {0, -3, 0.5f, 1000}; switch (mc::choose(4, "type")) { case 0: return typed_matrix<int>("int", I); case 1: return typed_matrix<long>("long", G); case 2: return typed_matrix<short>("short", S); default: return typed_matrix<float>("float", F); } }
