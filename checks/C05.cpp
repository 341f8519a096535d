// flags: -O1
//# hstack/vstack/flatten/repeat/fmin/clip/norm: every shape pair up to 4x4 (distinct entries) and every matrix of up to 4 entries over {-2,0,3}; patterned shapes up to 20x20
//# where/unique/vec2mat/slice: every list up to 6 (thorough 8) over 3 values; every nested list shape up to 4x4 incl. ragged; every start/end pair -- in and out of range
//# where/unique/clip/fmin/flatten/vec2mat/norm on every list of 1..4 over 10 doubles that differ in the last bit, beyond float precision, within one integer, in sign, or hugely in magnitude
//! repeat on inputs where "repeat each element" and "tile the array" differ accepts either
//# stacking, tiling, selecting, slicing and conversion of 17..300 rows or items x 1..33 columns
//# vectors of 65537 and 70000 items through where, unique, flatten, vec2mat, slice, repeat, stacking, clip and norm
//# hstack/vstack/flatten/repeat/fmin/clip/where/unique/vec2mat/slice on matrices and lists of int, long, unsigned, short and float entries: every 1..2 x 1..2 matrix over 6 values incl. the extremes of the type
#include "core.hpp"
using namespace openml;
namespace {
Mat numbered(int r, int c, double b = 0) { Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = b + 10 * i + j + 1; return X; }
Vec flat(const Mat& X) { Vec v(X.size()); long k = 0; for (long i = 0; i < X.rows(); ++i) for (long j = 0; j < X.cols(); ++j) v(k++) = X(i, j); return v; }
void elementwise(const Mat& X) {
  const Mat X0 = X; MC_LOG("X=" << mc::str(X)); mc::state(X);
  MC_CHECK((common::flatten<Mat, Vec>(X)) == flat(X), "flatten of " << mc::str(X) << " is " << mc::str(common::flatten<Mat, Vec>(X).transpose())); mc::step();
  for (double y : {-3.0, -2.0, 0.0, 1.5, 3.0, 8.0}) { Mat F = common::fmin<Mat>(X, y); mc::step(); for (long i = 0; i < X.rows(); ++i) for (long j = 0; j < X.cols(); ++j) MC_CHECK(F.rows() == X.rows() && F.cols() == X.cols() && F(i, j) == (X(i, j) < y ? X(i, j) : y), "fmin(" << mc::str(X) << "," << y << ")=" << mc::str(F));
    for (double lo : {-5.0, -2.0, 0.0, 1.5}) if (lo <= y) { Mat C = common::clip<Mat>(X, y, lo); mc::step(); for (long i = 0; i < X.rows(); ++i) for (long j = 0; j < X.cols(); ++j) MC_CHECK(C.rows() == X.rows() && C.cols() == X.cols() && C(i, j) == (X(i, j) > y ? y : X(i, j) < lo ? lo : X(i, j)), "clip(" << mc::str(X) << ",max=" << y << ",min=" << lo << ")=" << mc::str(C)); } }
  for (int axis = 0; axis < 2; ++axis) for (int ord : {1, 2, (int)Eigen::Infinity}) {
    Mat N = common::norm<Mat>(X, axis, ord); mc::step(); long lanes = axis == 0 ? X.cols() : X.rows(); MC_CHECK(N.size() == lanes, "norm(axis=" << axis << ") of " << mc::str(X) << " has " << N.size() << " entries");
    for (long k = 0; k < lanes; ++k) { double s = 0; long len = axis == 0 ? X.rows() : X.cols(); for (long i = 0; i < len; ++i) { double v = std::fabs(axis == 0 ? X(i, k) : X(k, i)); s = ord == 1 ? s + v : ord == 2 ? s + v * v : (v > s ? v : s); } if (ord == 2) s = std::sqrt(s);
      MC_CHECK(mc::near(N.data()[k], s), "norm(axis=" << axis << ",ord=" << ord << ") of " << mc::str(X) << " lane " << k << " is " << N.data()[k] << " not " << s); } }
  MC_CHECK(X == X0, "input modified"); mc::validated(30);
}
}
MC_SCENARIO(stacking, 4) {
  int r1 = 1 + mc::choose(4, "r1"), c1 = 1 + mc::choose(4, "c1"), r2 = 1 + mc::choose(4, "r2"), c2 = 1 + mc::choose(4, "c2"); Mat A = numbered(r1, c1), B = numbered(r2, c2, 500); Mat H, W; MC_LOG(mc::str(A) << " " << mc::str(B)); mc::state(r1, c1, r2, c2);
  bool th = mc::throws([&] { H = common::hstack<Mat>(A, B); }), tv = mc::throws([&] { W = common::vstack<Mat>(A, B); }); mc::step(2); mc::validated(2);
  MC_CHECK(th == (r1 != r2), "hstack of " << r1 << "x" << c1 << " and " << r2 << "x" << c2 << (th ? " rejected" : " accepted")); MC_CHECK(tv == (c1 != c2), "vstack of " << r1 << "x" << c1 << " and " << r2 << "x" << c2 << (tv ? " rejected" : " accepted"));
  if (!th) { MC_CHECK(H.rows() == r1 && H.cols() == c1 + c2, "hstack shape"); for (int i = 0; i < r1; ++i) for (int j = 0; j < c1 + c2; ++j) MC_CHECK(H(i, j) == (j < c1 ? A(i, j) : B(i, j - c1)), "hstack " << mc::str(H)); }
  if (!tv) { MC_CHECK(W.rows() == r1 + r2 && W.cols() == c1, "vstack shape"); for (int i = 0; i < r1 + r2; ++i) for (int j = 0; j < c1; ++j) MC_CHECK(W(i, j) == (i < r1 ? A(i, j) : B(i - r1, j)), "vstack " << mc::str(W)); }
}
MC_SCENARIO(elements, 3) {
  static const double V[] = {-2, 0, 3}; int r = 1 + mc::choose(4, "r"), c = 1 + mc::choose(4, "c"); if (r * c > (mc::thorough() ? 6 : 4)) mc::prune(); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = mc::pick(V, "x"); elementwise(X);
}
MC_SCENARIO(element_shapes, 2) { int r = 1 + mc::choose(20, "r"), c = 1 + mc::choose(20, "c"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = ((i * 5 + j * 3) % 11 - 5) + 0.1 * ((i * c + j) % 7); elementwise(X); }
MC_SCENARIO(repeating, 3) {
  int r = 1 + mc::choose(4, "r"), c = 1 + mc::choose(4, "c"), axis = mc::choose(2, "axis"), k = 1 + mc::choose(4, "repeats"); Mat X = numbered(r, c), R = common::repeat<Mat>(X, k, axis); mc::step(); mc::state(r, c, axis, k); MC_LOG(mc::str(R));
  MC_CHECK(R.rows() == (axis == 0 ? r * k : r) && R.cols() == (axis == 1 ? c * k : c), "repeat(" << r << "x" << c << ",k=" << k << ",axis=" << axis << ") has shape " << R.rows() << "x" << R.cols()); bool tile = true, rep = true;
  for (int i = 0; i < R.rows(); ++i) for (int j = 0; j < R.cols(); ++j) { int ti = axis == 0 ? i % r : i, tj = axis == 1 ? j % c : j, ei = axis == 0 ? i / k : i, ej = axis == 1 ? j / k : j; tile &= R(i, j) == X(ti, tj); rep &= R(i, j) == X(ei, ej); }
  MC_CHECK(tile || rep, "repeat(" << mc::str(X) << ",k=" << k << ",axis=" << axis << ")=" << mc::str(R)); mc::validated();
}
MC_SCENARIO(selecting, 3) {
  static const double V[] = {0, 1, -2.5}; int n = mc::choose(mc::thorough() ? 9 : 7, "n"); if (n < 2) mc::choose(1); Vec x(n); std::vector<double> sv; for (int i = 0; i < n; ++i) { x(i) = mc::pick(V, "x"); sv.push_back(x(i)); } if (n < 2) mc::choose(1); const Vec x0 = x; MC_LOG(mc::str(sv)); mc::state(sv);
  IVec w = common::where<Vec, IVec>(x); std::vector<long> ww; for (int i = 0; i < n; ++i) if (x(i) != 0) ww.push_back(i); mc::step(); MC_CHECK(std::vector<long>(w.data(), w.data() + w.size()) == ww, "where of " << mc::str(sv) << " is " << mc::str(w.transpose()));
  Eigen::Matrix<bool, -1, 1> b(n); for (int i = 0; i < n; ++i) b(i) = x(i) > 0; IVec wb = common::where<Eigen::Matrix<bool, -1, 1>, IVec>(b); std::vector<long> w2; for (int i = 0; i < n; ++i) if (b(i)) w2.push_back(i); mc::step(); MC_CHECK(std::vector<long>(wb.data(), wb.data() + wb.size()) == w2, "where of a boolean vector");
  if (n > 0) {
    Vec val, idx; std::tie(val, idx) = common::unique<Vec>(x); mc::step(); std::set<double> u(sv.begin(), sv.end()); MC_CHECK(x == x0, "input modified");
    MC_CHECK(val.size() == (long)u.size() && idx.size() == val.size() && std::set<double>(val.data(), val.data() + val.size()) == u, "unique of " << mc::str(sv) << " is " << mc::str(val.transpose()));
    for (long i = 0; i < val.size(); ++i) MC_CHECK(idx(i) >= 0 && idx(i) < n && x((long)idx(i)) == val(i), "unique of " << mc::str(sv) << ": index " << idx(i) << " does not hold value " << val(i));
    Vec v = common::vec2mat<Vec>(sv); mc::step(); MC_CHECK(v == x, "vec2mat of a list");
  }
  for (int s = 0; s <= n + 1; ++s) for (int e = 0; e <= n + 1; ++e) { std::vector<double> r; bool t = mc::throws([&] { r = common::slice<double>(sv, s, e); }); bool ok = s <= e && e < n; mc::step(); MC_CHECK(t == !ok, "slice(" << mc::str(sv) << "," << s << "," << e << ")" << (t ? " rejected" : " accepted")); if (ok) MC_CHECK(r == std::vector<double>(sv.begin() + s, sv.begin() + e + 1), "slice(" << mc::str(sv) << "," << s << "," << e << ")=" << mc::str(r)); }
  std::vector<std::string> sl; for (double q : sv) sl.push_back(mc::num(q)); if (n >= 2) { auto r = common::slice<std::string>(sl, 1, n - 1); mc::step(); MC_CHECK(r == std::vector<std::string>(sl.begin() + 1, sl.end()), "slice of strings"); } mc::validated(6);
}
MC_SCENARIO(fine_values, 2) {
  static const double V[] = {1, 1 + 2.220446049250313e-16, 1 - 1e-9, 0.25, -0.25, 16777217, 16777216, 1e150, -5e-324, 0.0};
  int n = 2 + mc::choose(3, "n"); Vec x(n); std::vector<double> sv; for (int i = 0; i < n; ++i) { x(i) = mc::pick(V, "x"); sv.push_back(x(i)); } MC_LOG(mc::str(sv)); mc::state(sv); const Vec x0 = x;
  IVec w = common::where<Vec, IVec>(x); std::vector<long> ww; for (int i = 0; i < n; ++i) if (x(i) != 0) ww.push_back(i); MC_CHECK(std::vector<long>(w.data(), w.data() + w.size()) == ww, "where of " << mc::str(sv) << " is " << mc::str(w.transpose()));
  Vec val, idx; std::tie(val, idx) = common::unique<Vec>(x); std::set<double> u(sv.begin(), sv.end()); MC_CHECK(x == x0, "input modified");
  MC_CHECK(val.size() == (long)u.size() && idx.size() == val.size() && std::set<double>(val.data(), val.data() + val.size()) == u, "unique of " << mc::str(sv) << " is " << mc::str(val.transpose()));
  for (long i = 0; i < val.size(); ++i) MC_CHECK(idx(i) >= 0 && idx(i) < n && x((long)idx(i)) == val(i), "unique of " << mc::str(sv) << ": index " << idx(i) << " does not hold value " << val(i));
  Vec v = common::vec2mat<Vec>(sv); MC_CHECK(v == x, "vec2mat of " << mc::str(sv)); Mat R = common::vec2mat<Mat>(std::vector<std::vector<double>>{sv, sv}); for (int i = 0; i < n; ++i) MC_CHECK(R(0, i) == x(i) && R(1, i) == x(i), "vec2mat of nested " << mc::str(sv));
  Mat X = x.transpose(); MC_CHECK((common::flatten<Mat, Vec>(X)) == x, "flatten of " << mc::str(sv)); mc::step(5);
  for (double y : V) { Mat F = common::fmin<Mat>(X, y); for (int i = 0; i < n; ++i) MC_CHECK(F(0, i) == (x(i) < y ? x(i) : y), "fmin(" << mc::str(sv) << "," << y << ")=" << mc::str(F)); for (double lo : V) if (lo <= y) { Mat C = common::clip<Mat>(X, y, lo); for (int i = 0; i < n; ++i) MC_CHECK(C(0, i) == (x(i) > y ? y : x(i) < lo ? lo : x(i)), "clip(" << mc::str(sv) << ",max=" << y << ",min=" << lo << ")=" << mc::str(C)); } mc::step(11); }
  for (int ord : {1, 2, (int)Eigen::Infinity}) { Mat N = common::norm<Mat>(X, 1, ord); long double t = 0; for (double q : sv) { long double a = std::fabs(q); t = ord == 1 ? t + a : ord == 2 ? t + a * a : std::max(t, a); } if (ord == 2) t = std::sqrt(t); mc::step(); MC_CHECK(N.size() == 1 && std::fabs((double)(N(0, 0) - t)) <= 1e-12 * (double)t + (ord == 2 ? 1e-300 : 0), "norm(ord=" << ord << ") of " << mc::str(sv) << " is " << N(0, 0)); }
  mc::validated(20);
}
MC_SCENARIO(nested, 4) {
  int r = 1 + mc::choose(4, "rows"), c = 1 + mc::choose(4, "cols"), br = mc::choose(r + 1, "odd row"), bl = 1 + mc::choose(5, "odd length"); std::vector<std::vector<double>> x(r, std::vector<double>(c)); if (br < r) x[br].resize(bl); for (int i = 0; i < r; ++i) for (std::size_t j = 0; j < x[i].size(); ++j) x[i][j] = 10 * i + j - 4; bool rag = false; for (auto& a : x) rag |= a.size() != x[0].size();
  MC_LOG(mc::str(x)); mc::state(x); Mat M; bool t = mc::throws([&] { M = common::vec2mat<Mat>(x); }); mc::step(); MC_CHECK(t == rag, "vec2mat of " << mc::str(x) << (t ? " rejected" : " accepted")); std::vector<double> fl; for (auto& a : x) fl.insert(fl.end(), a.begin(), a.end());
  if (!t) { MC_CHECK(M.rows() == r && M.cols() == (long)x[0].size(), "vec2mat shape"); for (int i = 0; i < r; ++i) for (long j = 0; j < M.cols(); ++j) MC_CHECK(M(i, j) == x[i][j], "vec2mat of " << mc::str(x) << " is " << mc::str(M)); }
  MC_CHECK(common::flatten<std::vector<double>>(x) == fl, "flatten of " << mc::str(x)); mc::step();
  if (!rag) for (int sr = 0; sr <= r; ++sr) for (int er = 0; er <= r; ++er) for (int sc = 0; sc <= c; ++sc) for (int ec = 0; ec <= c; ++ec) { c = (int)x[0].size(); if (sc > c || ec > c) continue; std::vector<std::vector<double>> s; bool ok = sr <= er && er < r && sc <= ec && ec < c, th = mc::throws([&] { s = common::slice<double>(x, sr, er, sc, ec); }); mc::step(); MC_CHECK(th == !ok, "slice rows " << sr << ".." << er << " cols " << sc << ".." << ec << " of " << r << "x" << c << (th ? " rejected" : " accepted"));
    if (ok) { std::vector<std::vector<double>> w; for (int i = sr; i <= er; ++i) w.emplace_back(x[i].begin() + sc, x[i].begin() + ec + 1); MC_CHECK(s == w, "slice rows " << sr << ".." << er << " cols " << sc << ".." << ec << " of " << mc::str(x) << " is " << mc::str(s)); } }
  mc::validated(3);
}
MC_SCENARIO(large, 2) {
  int r = mc::size(1, 2, {9, 17, 33, 70, 300}, "r"), c = mc::size(1, 2, {9, 17, 33}, "c"), q = mc::size(1, 1, {5, 20, 64}, "q"); Mat A = numbered(r, c), B = numbered(r, q, 1e6), C = numbered(q, c, 2e6); mc::state(r, c, q); MC_LOG(r << "x" << c << " and " << q);
  Mat H = common::hstack<Mat>(A, B), W = common::vstack<Mat>(A, C); mc::step(2); MC_CHECK(H.rows() == r && H.cols() == c + q && H.leftCols(c) == A && H.rightCols(q) == B, "hstack of " << r << "x" << c << " and " << r << "x" << q); MC_CHECK(W.rows() == r + q && W.cols() == c && W.topRows(r) == A && W.bottomRows(q) == C, "vstack of " << r << "x" << c << " and " << q << "x" << c); if (q == 1 && c == 1) elementwise(A);
  MC_CHECK((common::flatten<Mat, Vec>(A)) == flat(A), "flatten of " << r << "x" << c); for (int axis = 0; axis < 2; ++axis) { Mat R = common::repeat<Mat>(A, 3, axis); MC_CHECK(R.rows() == (axis ? r : 3 * r) && R.cols() == (axis ? 3 * c : c), "repeat shape"); bool tile = true, rep = true; for (int i = 0; i < R.rows(); ++i) for (int j = 0; j < R.cols(); ++j) { tile &= R(i, j) == A(axis ? i : i % r, axis ? j % c : j); rep &= R(i, j) == A(axis ? i : i / 3, axis ? j / 3 : j); } MC_CHECK(tile || rep, "repeat of " << r << "x" << c << " along axis " << axis); } mc::step(3);
  std::vector<std::vector<double>> L; std::vector<double> one; for (int i = 0; i < r; ++i) { L.emplace_back(); for (int j = 0; j < c; ++j) { L.back().push_back(A(i, j)); one.push_back((i * 13 + j * 5) % (q + 1)); } } Mat M = common::vec2mat<Mat>(L); MC_CHECK(M == A, "vec2mat of a list of " << r << " rows of " << c); std::vector<double> fl; for (auto& a : L) fl.insert(fl.end(), a.begin(), a.end()); MC_CHECK(common::flatten<std::vector<double>>(L) == fl, "flatten of a list");
  int er = r - 1 - r / 3, sr = std::min(r / 4, er), ec = c - 1, sc = c / 3; auto s = common::slice<double>(L, sr, er, sc, ec); MC_CHECK((int)s.size() == er - sr + 1, "slice has " << s.size() << " rows"); for (int i = sr; i <= er; ++i) MC_CHECK(s[i - sr] == std::vector<double>(L[i].begin() + sc, L[i].begin() + ec + 1), "slice row " << i << " of " << r << "x" << c);
  int n = (int)one.size(); auto s1 = common::slice<double>(one, n / 5, n - 1); MC_CHECK(s1 == std::vector<double>(one.begin() + n / 5, one.end()), "slice of " << n << " items"); Vec x = Eigen::Map<Vec>(one.data(), n); IVec w = common::where<Vec, IVec>(x); std::vector<long> ww; for (int i = 0; i < n; ++i) if (one[i] != 0) ww.push_back(i); MC_CHECK(std::vector<long>(w.data(), w.data() + w.size()) == ww, "where of " << n << " items");
  Vec val, idx; std::tie(val, idx) = common::unique<Vec>(x); std::set<double> u(one.begin(), one.end()); MC_CHECK(val.size() == (long)u.size() && idx.size() == val.size() && std::set<double>(val.data(), val.data() + val.size()) == u, "unique of " << n << " items gives " << mc::str(val.transpose())); for (long i = 0; i < val.size(); ++i) MC_CHECK(idx(i) >= 0 && idx(i) < n && x((long)idx(i)) == val(i), "unique index"); mc::step(6); mc::validated(10);
}
MC_SCENARIO(very_long, 2) {
  int n = mc::choose(2, "n") ? 70000 : 65537, k = mc::choose(3, "fill"); Vec x(n); std::vector<double> sv(n); for (int i = 0; i < n; ++i) sv[i] = x(i) = k == 0 ? i + 1 : k == 1 ? i >= 65535 : (i * 31L) % 1000 - 500.0; mc::state(n, k); MC_LOG(n << " items, fill " << k);
  IVec w = common::where<Vec, IVec>(x); long at = 0; for (int i = 0; i < n; ++i) if (x(i) != 0) { MC_CHECK(at < w.size() && w(at) == i, "where of " << n << " items, fill " << k << ", misses position " << i); ++at; } MC_CHECK(at == w.size(), "where finds " << w.size() << " of " << at);
  Vec val, idx; std::tie(val, idx) = common::unique<Vec>(x); std::set<double> u(sv.begin(), sv.end()); MC_CHECK(val.size() == (long)u.size() && idx.size() == val.size() && std::set<double>(val.data(), val.data() + val.size()) == u, "unique of " << n << " items, fill " << k << " gives " << val.size() << " values"); for (long i = 0; i < val.size(); ++i) MC_CHECK(idx(i) >= 0 && idx(i) < n && x((long)idx(i)) == val(i), "unique of " << n << " items: index " << idx(i) << " does not hold " << val(i));
  Mat C = x, R = x.transpose(); MC_CHECK((common::flatten<Mat, Vec>(C)) == x && (common::flatten<Mat, Vec>(R)) == x && common::vec2mat<Vec>(sv) == x, "flatten/vec2mat of " << n << " items"); MC_CHECK(common::vec2mat<Mat>(std::vector<std::vector<double>>{sv}) == R, "vec2mat of one row of " << n); auto s = common::slice<double>(sv, 65530, n - 2); MC_CHECK(s == std::vector<double>(sv.begin() + 65530, sv.end() - 1), "slice from 65530");
  Mat H = common::hstack<Mat>(R, C.topRows(1)), W = common::vstack<Mat>(C, C.bottomRows(2)); MC_CHECK(H.cols() == n + 1 && H.leftCols(n) == R && H(0, n) == x(0) && W.rows() == n + 2 && W.topRows(n) == C && W(n + 1, 0) == x(n - 1), "stacking of " << n << " items"); Mat T = common::repeat<Mat>(C, 2, 1); MC_CHECK(T.rows() == n && T.cols() == 2 && T.col(0) == x && T.col(1) == x, "repeat of " << n << " rows");
  Mat F = common::clip<Mat>(C, 100.5, -3.0), G = common::fmin<Mat>(C, 7.0); for (int i = 0; i < n; ++i) MC_CHECK(F(i, 0) == std::min(100.5, std::max(-3.0, x(i))) && G(i, 0) == std::min(7.0, x(i)), "clip/fmin of " << n << " items at " << i); Mat N = common::norm<Mat>(C, 0, 1), Q = common::norm<Mat>(C, 1, 2); MC_CHECK(N.size() == 1 && mc::near(N(0, 0), x.cwiseAbs().sum(), 1e-9) && Q.size() == n && mc::nearM(Mat(Eigen::Map<Vec>(Q.data(), n)), Mat(x.cwiseAbs()), 1e-12), "norm of " << n << " items"); mc::step(13); mc::validated(10); }
namespace { template <class T> void typed_helpers(const char* name) {
  typedef Eigen::Matrix<T, -1, -1> M; typedef Eigen::Matrix<T, -1, 1> V; typedef std::numeric_limits<T> L; const T A[] = {0, 1, 7, L::max(), L::lowest(), T(L::max() - T(1))}; int r = 1 + mc::choose(2, "r"), c = 1 + mc::choose(2, "c"); M X(r, c); std::vector<std::vector<T>> nest(r); std::vector<T> list; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { X(i, j) = A[mc::choose(6, "x")]; nest[i].push_back(X(i, j)); list.push_back(X(i, j)); }
  std::string h = std::string("of ") + name + " "; for (T v : list) h += mc::num((double)v) + " "; MC_LOG(h); mc::state(name, r, c, h); int n = r * c; M H = common::hstack<M>(X, X), W = common::vstack<M>(X, X), R0 = common::repeat<M>(X, 2, 0), R1 = common::repeat<M>(X, 2, 1); V F = common::flatten<M, V>(X), Q = common::vec2mat<V>(list); M N = common::vec2mat<M>(nest); mc::step(7);
  MC_CHECK(H.rows() == r && H.cols() == 2 * c && W.rows() == 2 * r && W.cols() == c && R0.rows() == 2 * r && R0.cols() == c && R1.rows() == r && R1.cols() == 2 * c && F.size() == n && Q.size() == n && N.rows() == r && N.cols() == c, "shape " << h); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(H(i, j) == X(i, j) && H(i, j + c) == X(i, j) && W(i, j) == X(i, j) && W(i + r, j) == X(i, j) && N(i, j) == X(i, j) && F(i * c + j) == X(i, j) && Q(i * c + j) == X(i, j), "entry " << i << "," << j << " " << h);
  auto tiles = [&](const M& R, int axis) { bool t = true, e = true; for (int i = 0; i < R.rows(); ++i) for (int j = 0; j < R.cols(); ++j) { t &= R(i, j) == X(axis ? i : i % r, axis ? j % c : j); e &= R(i, j) == X(axis ? i : i / 2, axis ? j / 2 : j); } return t || e; }; MC_CHECK(tiles(R0, 0) && tiles(R1, 1), "repeat " << h);
  for (T y : A) { M f = common::fmin<M>(X, y); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(f(i, j) == (X(i, j) < y ? X(i, j) : y), "fmin(" << (double)y << ") " << h); for (T lo : A) if (lo <= y) { M k = common::clip<M>(X, y, lo); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(k(i, j) == (X(i, j) > y ? y : X(i, j) < lo ? lo : X(i, j)), "clip(max=" << (double)y << ",min=" << (double)lo << ") " << h); } mc::step(4); }
  IVec w = common::where<V, IVec>(F); std::vector<long> ww; for (int i = 0; i < n; ++i) if (list[i] != T(0)) ww.push_back(i); MC_CHECK(std::vector<long>(w.data(), w.data() + w.size()) == ww, "where " << h); V val, idx; std::tie(val, idx) = common::unique<V>(F); std::set<T> u(list.begin(), list.end()); MC_CHECK(val.size() == (long)u.size() && idx.size() == val.size() && std::set<T>(val.data(), val.data() + val.size()) == u, "unique " << h << "gives " << val.size() << " values"); for (long i = 0; i < val.size(); ++i) MC_CHECK(idx(i) >= T(0) && (long)idx(i) < n && F((long)idx(i)) == val(i), "unique " << h << "index " << i);
  for (int s = 0; s < n; ++s) for (int e = s; e < n; ++e) { auto q = common::slice<T>(list, s, e); MC_CHECK(q == std::vector<T>(list.begin() + s, list.begin() + e + 1), "slice " << h); } MC_CHECK(common::flatten<std::vector<T>>(nest) == list, "flatten of nested lists " << h); mc::step(4); mc::validated(10); } }
MC_SCENARIO(element_types, 3) { switch (mc::choose(5, "type")) { case 0: return typed_helpers<int>("int"); case 1: return typed_helpers<long>("long"); case 2: return typed_helpers<unsigned>("unsigned"); case 3: return typed_helpers<short>("short"); default: return typed_helpers<float>("float"); } }
