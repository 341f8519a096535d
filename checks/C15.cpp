// flags: -O1
//# distances: every pair and triple of vectors of length 0..3 over {-2,0,1.5} (pairs also over {-2,0,0.5,3} up to length 4), every ordered pair of different shapes up to 3x3, every p in -4..4 besides the supported three; every length 1..40 with patterned entries and scales 1e-8..1e8
//# explained variance: every pair of vectors of length 2..4 over {-1,0,2} with non-constant truth, common offsets 0, 1e3, 1e7 added to truth, prediction or both
//# lengths 64, 100, 257, 1030; every pair of vectors of length 1..2 over 9 doubles that differ in the last bit, beyond float precision or within one integer; explained variance of 5..1030 values
//# 32-bit integer, unsigned, 8-bit and single-precision elements: every pair of lists and matrices of length 1..3 over 5 values (4 at length 3) including the ends of the range, every metric; mean squared error (mean_absolute_error) of every pair of vectors of length 1..3 over 5 values and of lengths 4..40, 64, 257, 1030
//# distances and scores of vectors of 65537 and 70000 items
#include "core.hpp"
using namespace openml;
namespace {
const int P[] = {1, 2, Eigen::Infinity};
double ref(const Mat& a, const Mat& b, int p) { long double s = 0; for (long i = 0; i < a.size(); ++i) { long double d = fabsl((long double)a.data()[i] - b.data()[i]); if (p == 1) s += d; else if (p == 2) s += d * d; else s = std::max(s, d); } return p == 2 ? (double)sqrtl(s) : (double)s; }
std::vector<double> lst(const Mat& a) { return std::vector<double>(a.data(), a.data() + a.size()); }
double dist(const Mat& a, const Mat& b, int p) {
  double r = ref(a, b, p), d = metric::minkowski_distance<Mat>(a, b, p); mc::step(); MC_CHECK(mc::near(d, r, 1e-12 + 1e-12 * r) && (d == 0) == (a == b), "minkowski_distance(" << mc::str(a) << "," << mc::str(b) << "," << p << ") is " << d << " not " << r);
  if (p != Eigen::Infinity) { auto u = lst(a), v = lst(b); const auto u0 = u, v0 = v; double e = p == 2 ? metric::euclidean_distance<double>(u, v) : metric::manhattan_distance<double>(u, v); mc::step(); MC_CHECK(u == u0 && v == v0, "vectors modified"); MC_CHECK(mc::near(e, r, 1e-12 + 1e-12 * r) && (e == 0) == (a == b), (p == 2 ? "euclidean" : "manhattan") << "_distance(" << mc::str(u) << "," << mc::str(v) << ") is " << e << " not " << r); }
  mc::validated(); return d;
}
void pair(const Mat& a, const Mat& b) { mc::state(a, b); MC_LOG(mc::str(a) << " " << mc::str(b)); for (int p : P) { double d = dist(a, b, p), e = dist(b, a, p); MC_CHECK(d == e, "distance not symmetric for " << mc::str(a) << " " << mc::str(b)); } }
}
MC_SCENARIO(pairs, 3) { static const double V[] = {-2, 0, 0.5, 3}; int n = 1 + mc::choose(4, "n"), sh = mc::choose(3, "layout"); if (sh == 2 && n != 4) mc::prune(); Mat a(sh == 2 ? 2 : sh ? 1 : n, sh == 2 ? 2 : sh ? n : 1), b = a; int m = n == 4 ? 3 : 4; for (int i = 0; i < n; ++i) { a.data()[i] = V[mc::choose(m, "a")]; b.data()[i] = V[mc::choose(m, "b")]; } pair(a, b); }
MC_SCENARIO(triples, 3) { static const double V[] = {-2, 0, 1.5}; int n = 1 + mc::choose(3, "n"); Mat a(n, 1), b(n, 1), c(n, 1); for (int i = 0; i < n; ++i) { a(i) = mc::pick(V); b(i) = mc::pick(V); c(i) = mc::pick(V); } mc::state(a, b, c); for (int p : P) { double x = dist(a, b, p), y = dist(b, c, p), z = dist(a, c, p); MC_CHECK(z <= x + y + 1e-9, "triangle inequality fails for " << mc::str(a) << " " << mc::str(b) << " " << mc::str(c)); } }
MC_SCENARIO(lengths, 2) { static const double S[] = {1, 1e-8, 1e8}; int n = 1 + mc::choose(40, "n"), f = mc::choose(3, "fill"); double s = mc::pick(S, "scale"); Mat a(n, 1), b(n, 1); for (int i = 0; i < n; ++i) { a(i) = s * ((i * 7) % 5 - 2); b(i) = f == 0 ? a(i) : f == 1 ? s * ((i * 3) % 7) : a(i) + (i == n - 1 ? s : 0); } pair(a, b); }
MC_SCENARIO(integers, 2) { int n = 1 + mc::choose(4, "n"); std::vector<int> a(n), b(n); long s1 = 0; double s2 = 0; for (int i = 0; i < n; ++i) { a[i] = mc::choose(3, "a") * 3 - 4; b[i] = mc::choose(3, "b") * 2 - 1; int d = a[i] - b[i]; s1 += std::abs(d); s2 += d * d; } mc::state(a, b); double m = metric::manhattan_distance<int>(a, b), e = metric::euclidean_distance<int>(a, b); mc::step(2); MC_CHECK(m == s1 && mc::near(e, std::sqrt(s2), 1e-12), "integer distances of " << mc::str(a) << " " << mc::str(b) << ": " << m << " " << e); mc::validated(2); }
MC_SCENARIO(rejects, 2) { int r1 = 1 + mc::choose(3), c1 = 1 + mc::choose(3), r2 = 1 + mc::choose(3), c2 = 1 + mc::choose(3), p = mc::choose(9, "p") - 4; Mat a = Mat::Constant(r1, c1, 2), b = Mat::Constant(r2, c2, 5); mc::state(a, b, p); bool okp = p == 1 || p == 2 || p == Eigen::Infinity, oks = r1 == r2 && c1 == c2; bool t = mc::throws([&] { metric::minkowski_distance<Mat>(a, b, p); }); mc::step(); MC_CHECK(t == !(okp && oks), "minkowski_distance of " << r1 << "x" << c1 << " and " << r2 << "x" << c2 << " with p=" << p << (t ? " rejected" : " accepted")); if (a.size() != b.size()) { auto u = lst(a), v = lst(b); MC_CHECK(mc::throws([&] { metric::euclidean_distance<double>(u, v); }) && mc::throws([&] { metric::manhattan_distance<double>(u, v); }), "distance of vectors of length " << u.size() << " and " << v.size() << " accepted"); mc::step(2); } mc::validated(); }
MC_SCENARIO(explained, 3) { static const double V[] = {-1, 0, 2}, O[] = {0, 1e3, 1e7}; int n = 2 + mc::choose(mc::thorough() ? 4 : 3, "n"); Vec y(n), q(n); for (int i = 0; i < n; ++i) { y(i) = mc::pick(V); q(i) = mc::pick(V); } double o1 = mc::pick(O, "offset"), o2 = mc::pick(O, "offset"); double my = y.mean(), vy = (y.array() - my).square().mean(); if (vy == 0) mc::prune(); Vec d = y - q; double ve = (d.array() - d.mean()).square().mean(); Vec Y = y.array() + o1, Q = q.array() + o2; const Vec Y0 = Y, Q0 = Q; mc::state(Y, Q); double s = metric::explained_variance_score<Vec>(Y, Q); mc::step(); MC_CHECK(Y == Y0 && Q == Q0, "inputs modified"); MC_CHECK(mc::near(s, 1 - ve / vy, 1e-6), "explained variance of truth " << mc::str(Y) << " prediction " << mc::str(Q) << " is " << s << " not " << 1 - ve / vy); mc::validated(); }
MC_SCENARIO(long_vectors, 1) { static const int N[] = {64, 100, 257, 1030}; int n = mc::pick(N, "n"), f = mc::choose(4, "fill"), z = mc::choose(5, "place"); Mat a(n, 1), b(n, 1); for (int i = 0; i < n; ++i) { a(i) = (i * 7) % 5 - 2; b(i) = f == 0 ? a(i) : f == 1 ? (i * 3) % 7 : f == 2 ? a(i) + (i == z * (n - 1) / 4 ? 0.5 : 0) : -a(i) * 0.25; } pair(a, b); Mat c = Eigen::Map<Mat>(a.data(), n / 2 * 2 / 2, 2), d = Eigen::Map<Mat>(b.data(), n / 2 * 2 / 2, 2); for (int p : P) dist(c, d, p); }
MC_SCENARIO(fine, 2) { static const double V[] = {1, 1 + 2.220446049250313e-16, 1 + 1e-9, 0.25, -0.25, 16777217, 16777216, 1e-9, 1e9}; int n = 1 + mc::choose(2, "n"); Mat a(n, 1), b(n, 1); for (int i = 0; i < n; ++i) { a(i) = mc::pick(V, "a"); b(i) = mc::pick(V, "b"); } for (int p : P) { double d = dist(a, b, p), r = ref(a, b, p); MC_CHECK(std::fabs(d - r) <= 1e-12 * r, "distance of " << mc::str(a) << " and " << mc::str(b) << " is " << d << " not " << r); } mc::state(a, b); MC_LOG(mc::str(a) << mc::str(b)); }
MC_SCENARIO(explained_sizes, 2) { int n = mc::size(5, 40, {64, 257, 1030}, "n"), f = mc::choose(4, "fill"); static const double O[] = {0, 1e4}; double o = mc::pick(O, "offset"); Vec y(n), q(n); for (int i = 0; i < n; ++i) { y(i) = (i * 7) % 5 * 0.5 + o; q(i) = f == 0 ? y(i) : f == 1 ? y(i) + 3 : f == 2 ? (i * 3) % 4 : o; } Vec d = y - q; double ve = (d.array() - d.mean()).square().mean(), vy = (y.array() - y.mean()).square().mean(), s = metric::explained_variance_score<Vec>(y, q); mc::step(); mc::state(y, q); MC_LOG(n << " " << f); MC_CHECK(mc::near(s, 1 - ve / vy, 1e-7), "explained variance of " << n << " values, fill " << f << ", is " << s << " not " << 1 - ve / vy); mc::validated(); }

namespace {
template <class T> void element(const T (&A)[5], const char* type) {
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M; typedef Eigen::Matrix<T, Eigen::Dynamic, 1> V; int n = 1 + mc::choose(3, "n"); std::vector<T> a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = A[mc::choose(n == 3 ? 4 : 5, "a")]; b[i] = A[mc::choose(n == 3 ? 4 : 5, "b")]; }
  Mat x(n, 1), y(n, 1); for (int i = 0; i < n; ++i) { x(i) = (double)a[i]; y(i) = (double)b[i]; } mc::state(a, b); std::string h = std::string(type) + " " + mc::str(x) + " and " + mc::str(y); MC_LOG(h); double eps = std::is_same<T, float>::value ? 1e-6 : 1e-12;
  M p = Eigen::Map<M>(a.data(), n, 1), q = Eigen::Map<M>(b.data(), n, 1); for (int o : P) { double r = ref(x, y, o), d = metric::minkowski_distance<M>(p, q, o); mc::step(); MC_CHECK(mc::near(d, r, 1e-12 + eps * r), "minkowski_distance with p = " << o << " of " << h << " is " << d << " not " << r); if (o != Eigen::Infinity) { double e = o == 2 ? metric::euclidean_distance<T>(a, b) : metric::manhattan_distance<T>(a, b); mc::step(); MC_CHECK(mc::near(e, r, 1e-12 + eps * r), (o == 2 ? "euclidean" : "manhattan") << "_distance of " << h << " is " << e << " not " << r); } mc::validated(); }
  V u = Eigen::Map<V>(a.data(), n), v = Eigen::Map<V>(b.data(), n); double m = metric::mean_absolute_error<V>(u, v), w = (x - y).squaredNorm() / n; mc::step(); MC_CHECK(mc::near(m, w, 1e-12 + 10 * eps * w), "mean squared error of " << h << " is " << m << " not " << w); double vy = (x.array() - x.mean()).square().mean(); Mat e = x - y; if (vy > 1e-9) { double s = metric::explained_variance_score<V>(u, v), t = 1 - (e.array() - e.mean()).square().mean() / vy; mc::step(); MC_CHECK(mc::near(s, t, 1e-9 + 10 * eps * (1 + std::max(x.cwiseAbs().maxCoeff(), y.cwiseAbs().maxCoeff()) / std::sqrt(vy)) * (1 + std::fabs(t))), "explained variance of " << h << " is " << s << " not " << t); } mc::validated(2);
}
}
MC_SCENARIO(element_types, 2) { int t = mc::choose(4, "element"); if (t == 0) { static const int A[] = {0, 1, -3, INT_MAX, INT_MIN}; element(A, "int"); } else if (t == 1) { static const unsigned A[] = {0, 1, 5, 4294967295u, 70000}; element(A, "unsigned"); } else if (t == 2) { static const unsigned char A[] = {0, 1, 3, 255, 128}; element(A, "unsigned char"); } else { static const float A[] = {0, 0.1f, -2.75f, 4096.5f, 1e-3f}; element(A, "float"); } }
MC_SCENARIO(squared_error, 2) { int f = mc::choose(2, "family"), n = f ? mc::size(4, 40, {64, 257, 1030}, "n") : 1 + mc::choose(3, "n"); Vec y(n), q(n); static const double V[] = {-2, 0, 0.1, 3, 1e5}; int g = f ? mc::choose(3, "fill") : 0; for (int i = 0; i < n; ++i) if (f) { y(i) = (i * 7) % 5 * 0.5; q(i) = g == 0 ? y(i) : g == 1 ? (i * 3) % 4 : y(i) + (i == n - 1 ? 2 : 0); } else { y(i) = mc::pick(V); q(i) = mc::pick(V); } long double r = 0; for (int i = 0; i < n; ++i) r += ((long double)y(i) - q(i)) * ((long double)y(i) - q(i)); r /= n; mc::state(y, q); const Vec y0 = y, q0 = q; double m = metric::mean_absolute_error<Vec>(y, q); mc::step(); MC_CHECK(y == y0 && q == q0, "inputs modified"); MC_LOG(mc::str(y) << mc::str(q)); MC_CHECK(mc::near(m, (double)r, 1e-12 + 1e-12 * (double)r), "mean squared error of " << mc::str(y) << " and " << mc::str(q) << " is " << m << " not " << (double)r); mc::validated(); }
MC_SCENARIO(very_long, 2) { int n = mc::choose(2, "n") ? 65537 : 70000, f = mc::choose(4, "fill"); Vec y(n), q(n); for (int i = 0; i < n; ++i) { y(i) = (i * 7) % 5 - 2; q(i) = f == 0 ? y(i) + (i == n - 1) : f == 1 ? y(i) + 0.5 : f == 2 ? (i * 11L) % 13 * 0.25 : y(i) + (i % 1000 == 0 ? 3 : 0); } mc::state(n, f); Mat a = y, b = q; pair(a, b); double m = y.mean(), em = (y - q).mean(), vy = 0, ve = 0, se = 0; for (int i = 0; i < n; ++i) { double e = y(i) - q(i); vy += (y(i) - m) * (y(i) - m); ve += (e - em) * (e - em); se += e * e; } double r = metric::explained_variance_score<Vec>(y, q); mc::step(); MC_CHECK(mc::near(r, 1 - ve / vy, 1e-9), "explained variance of " << n << " items, fill " << f << " is " << r << " not " << 1 - ve / vy); mc::validated(); }
