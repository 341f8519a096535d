// flags: -O1
//# matrices: every r x c with r*c <= 6 (thorough 8; r,c 1..6) over {-1,0,2} (ties everywhere), both axes, both directions; every shape 1..40 x 1..12 with five patterned fillings (ties, distinct, descending, all equal, nearly all equal); the defaults (axis 0, ascending)
//# close, huge, tiny and fractional values: every matrix of 2..4 entries and every list of 2..4 (thorough 5) over 12 doubles that differ in the last bit, beyond float precision, within one integer, or by 600 orders of magnitude, both signs of zero included; maps with such values
//# lists of 7..45, 64, 100, 257 and 1000 items in five patterned fillings (all equal, ties, distinct, descending, nearly all equal)
//# vectors/lists: every list of up to 6 (thorough 8) over {3,1,2}, every nested list up to 3x3 over {0,1,5}; maps of up to 4 entries
//# lists and matrix rows/columns of 65537 and 70000 distinct, patterned and two-valued items
//# lists, nested lists, matrices and maps of 2-4 items over 0, 1, 2 and the extreme values of size_t, unsigned, int, long, short, unsigned char, float
#include "core.hpp"
using namespace openml;
namespace {
using common::argsort;
std::vector<double> lane(const Mat& X, int axis, int k) { std::vector<double> v; if (axis == 0) for (int i = 0; i < X.rows(); ++i) v.push_back(X(i, k)); else for (int j = 0; j < X.cols(); ++j) v.push_back(X(k, j)); return v; }
void check_matrix(const Mat& X) {
  const Mat X0 = X; MC_LOG("X=" << mc::str(X)); mc::state(X);
  for (int axis = 0; axis < 2; ++axis) {
    int lanes = axis == 0 ? X.cols() : X.rows(), len = axis == 0 ? X.rows() : X.cols();
    for (int rev = 0; rev < 2; ++rev) {
      IMat A = argsort<Mat, IMat, IVec>(X, axis, rev); Mat S = common::sort<Mat>(X, axis, rev); mc::step(2);
      MC_CHECK(X == X0, "input modified");
      MC_CHECK(A.rows() == X.rows() && A.cols() == X.cols() && S.rows() == X.rows() && S.cols() == X.cols(), "shape changed, axis " << axis);
      for (int k = 0; k < lanes; ++k) {
        auto v = lane(X, axis, k), w = lane(S, axis, k), s = v; std::sort(s.begin(), s.end()); if (rev) std::reverse(s.begin(), s.end());
        MC_CHECK(w == s, "sort(axis=" << axis << ",reverse=" << rev << ") lane " << k << " of " << mc::str(X) << " is " << mc::str(w) << " not " << mc::str(s));
        std::set<long> seen;
        for (int i = 0; i < len; ++i) {
          long a = axis == 0 ? A(i, k) : A(k, i);
          MC_CHECK(a >= 0 && a < len && seen.insert(a).second, "argsort(axis=" << axis << ",reverse=" << rev << ") lane " << k << " of " << mc::str(X) << " is not a permutation: index " << a);
          MC_CHECK(v[a] == s[i], "argsort(axis=" << axis << ",reverse=" << rev << ") lane " << k << " of " << mc::str(X) << " position " << i << " points at " << v[a] << " instead of " << s[i]);
        }
        mc::validated(2);
      }
    }
    IVec mx = common::argmax<Mat, Vec, IVec>(X, axis), mn = common::argmin<Mat, Vec, IVec>(X, axis); mc::step(2);
    MC_CHECK(mx.size() == lanes && mn.size() == lanes, "argmax/argmin(axis=" << axis << ") of " << mc::str(X) << " has " << mx.size() << "/" << mn.size() << " entries, expected " << lanes);
    for (int k = 0; k < lanes; ++k) {
      auto v = lane(X, axis, k);
      MC_CHECK(mx(k) >= 0 && mx(k) < len && v[mx(k)] == *std::max_element(v.begin(), v.end()), "argmax(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << mx(k));
      MC_CHECK(mn(k) >= 0 && mn(k) < len && v[mn(k)] == *std::min_element(v.begin(), v.end()), "argmin(axis=" << axis << ") of " << mc::str(X) << " lane " << k << " is " << mn(k));
    }
    mc::validated(2);
  }
  IVec mx = common::argmax<Mat, Vec, IVec>(X, -1), mn = common::argmin<Mat, Vec, IVec>(X, -1); mc::step(2);
  auto at = [&](long i) { return X(i / X.cols(), i % X.cols()); };   // row-major position
  MC_CHECK(mx.size() == 1 && mx(0) >= 0 && mx(0) < X.size() && at(mx(0)) == X.maxCoeff(), "argmax(axis=-1) of " << mc::str(X) << " is " << mc::str(mx));
  MC_CHECK(mn.size() == 1 && mn(0) >= 0 && mn(0) < X.size() && at(mn(0)) == X.minCoeff(), "argmin(axis=-1) of " << mc::str(X) << " is " << mc::str(mn));
  MC_CHECK(X == X0, "input modified"); mc::validated(2);
}
}
MC_SCENARIO(matrices, 3) {
  static const double V[] = {-1, 0, 2}; int lim = mc::thorough() ? 8 : 6;
  int r = 1 + mc::choose(6, "rows"), c = 1 + mc::choose(6, "cols"); if (r * c > lim) mc::prune();
  Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = mc::pick(V, "x"); check_matrix(X);
}
static const double FINE[] = {1, 1 + 2.220446049250313e-16, 1 + 1e-9, 0.25, 0.75, -0.25, 16777216, 16777217, 1e300, -1e300, 5e-324, -0.0};
MC_SCENARIO(fine_matrices, 3) {
  static const int RC[][2] = {{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}}; auto& s = RC[mc::choose(7, "shape")]; if (s[0] * s[1] == 2) { Mat X(s[0], s[1]); for (int i = 0; i < 2; ++i) X.data()[i] = mc::pick(FINE, "x"); check_matrix(X); return; }
  Mat X(s[0], s[1]); for (long i = 0; i < X.size(); ++i) X.data()[i] = mc::pick(FINE, "x"); check_matrix(X);
}
MC_SCENARIO(fine_lists, 2) {
  int n = 2 + mc::choose(mc::thorough() ? 4 : 3, "n"); std::vector<double> x; for (int i = 0; i < n; ++i) x.push_back(mc::pick(FINE, "x")); MC_LOG(mc::str(x)); mc::state(x); std::map<double, double> m; for (int i = 0; i < n; ++i) m[-i * 0.25] = x[i];
  for (int rev = 0; rev < 2; ++rev) {
    auto a = argsort<double>(x, rev); auto s = x; std::sort(s.begin(), s.end()); if (rev) std::reverse(s.begin(), s.end()); std::set<std::size_t> seen; MC_CHECK((int)a.size() == n, "argsort length");
    for (int i = 0; i < n; ++i) MC_CHECK(a[i] < (std::size_t)n && seen.insert(a[i]).second && x[a[i]] == s[i], "argsort(reverse=" << rev << ") of " << mc::str(x) << " is " << mc::str(a));
    std::vector<std::vector<double>> rows; for (double v : x) rows.push_back({v, -v}); auto r0 = common::sort<double>(rows, 0, rev), r1 = common::sort<double>(rows, 1, rev);
    for (int i = 0; i < n; ++i) { MC_CHECK(r0[i][0] == s[i] && r0[i][1] == -s[n - 1 - i], "sort(axis=0,reverse=" << rev << ") of " << mc::str(rows) << " is " << mc::str(r0)); double hi = std::max(x[i], -x[i]); MC_CHECK(r1[i][0] == (rev ? hi : -hi) && r1[i][1] == (rev ? -hi : hi), "sort(axis=1,reverse=" << rev << ") of " << mc::str(rows) << " is " << mc::str(r1)); }
  }
  auto p = common::max_element(m); MC_CHECK(m.count(p.first) && m[p.first] == p.second && p.second == *std::max_element(x.begin(), x.end()), "max_element of " << mc::str(x) << " is " << p.second); mc::step(7); mc::validated(7);
}
MC_SCENARIO(shapes, 2) {
  int r = 1 + mc::choose(40, "rows"), c = 1 + mc::choose(12, "cols"), k = mc::choose(5, "fill"); Mat X(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = k == 3 ? 2.5 : k == 4 ? (i * j) % 7 == 6 : k == 0 ? (i * 7 + j * 5) % 3 - 1 : k == 1 ? ((i * c + j) * 37) % 101 + 0.001 * i : -(i * c + j);
  check_matrix(X); check_matrix(X.transpose());
}
MC_SCENARIO(float_int_matrices, 2) {
  int r = 1 + mc::choose(5, "rows"), c = 1 + mc::choose(5, "cols"), s = mc::choose(6, "fill"); Eigen::MatrixXi X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = ((i + s) * 7 + j * 3) % 5 - 2;
  for (int axis = 0; axis < 2; ++axis) { Eigen::MatrixXi S = common::sort<Eigen::MatrixXi>(X, axis), A = argsort<Eigen::MatrixXi, Eigen::MatrixXi, Eigen::VectorXi>(X, axis); mc::step(2);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(S(i, j) == (axis == 0 ? X(A(i, j), j) : X(i, A(i, j))), "integer sort and argsort disagree for " << mc::str(X)); }
  MC_LOG(mc::str(X)); mc::state(X); mc::validated(2);
}
MC_SCENARIO(long_lists, 2) {
  int n = mc::size(7, 45, {64, 100, 257, 1000}, "n"), k = mc::choose(5, "fill"); std::vector<double> x; std::vector<std::vector<int>> L; for (int i = 0; i < n; ++i) { x.push_back(k == 0 ? 1.25 : k == 1 ? (i * 7) % 3 : k == 2 ? (i * 37) % 101 + 0.001 * i : k == 3 ? -i : i % 11 == 5); L.push_back({(int)(x.back() * 8), n - i, 4}); }
  MC_LOG(n << " items, fill " << k); mc::state(x);
  for (int rev = 0; rev < 2; ++rev) {
    auto a = argsort<double>(x, rev); auto s = x; std::sort(s.begin(), s.end()); if (rev) std::reverse(s.begin(), s.end()); std::set<std::size_t> seen; MC_CHECK((int)a.size() == n, "argsort length");
    for (int i = 0; i < n; ++i) MC_CHECK(a[i] < (std::size_t)n && seen.insert(a[i]).second && x[a[i]] == s[i], "argsort(reverse=" << rev << ") of " << n << " items, fill " << k << ": position " << i);
    for (int axis = 0; axis < 2; ++axis) { auto r = common::sort<int>(L, axis, rev); auto w = L; if (axis) for (auto& q : w) { std::sort(q.begin(), q.end()); if (rev) std::reverse(q.begin(), q.end()); } else for (int j = 0; j < 3; ++j) { std::vector<int> col; for (auto& q : w) col.push_back(q[j]); std::sort(col.begin(), col.end()); if (rev) std::reverse(col.begin(), col.end()); for (int i = 0; i < n; ++i) w[i][j] = col[i]; } MC_CHECK(r == w, "sort(axis=" << axis << ",reverse=" << rev << ") of a list of " << n << " rows, fill " << k); }
    if (!rev) { MC_CHECK(argsort<double>(x) == a, "argsort without a direction is not ascending"); MC_CHECK(common::sort<int>(L) == common::sort<int>(L, 0, false), "sort without axis is not sort(axis=0)"); }
  }
  mc::step(8); mc::validated(8);
}
MC_SCENARIO(defaults, 2) {
  int r = 2 + mc::choose(3, "r"), c = 2 + mc::choose(3, "c"), s = mc::choose(4, "seed"); Mat X(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) X(i, j) = ((i + s) * 11 + j * 7) % 13; MC_LOG(mc::str(X)); mc::state(X);
  MC_CHECK((argsort<Mat, IMat, IVec>(X) == argsort<Mat, IMat, IVec>(X, 0, false)), "argsort default axis"); MC_CHECK(common::sort<Mat>(X) == common::sort<Mat>(X, 0, false), "sort default axis");
  MC_CHECK((common::argmax<Mat, Vec, IVec>(X) == common::argmax<Mat, Vec, IVec>(X, 0)), "argmax default axis"); MC_CHECK((common::argmin<Mat, Vec, IVec>(X) == common::argmin<Mat, Vec, IVec>(X, 0)), "argmin default axis"); mc::step(8); mc::validated(4);
}
MC_SCENARIO(bad_axis, 1) {
  static const int AX[] = {2, 3, -2, 7}; int a = mc::pick(AX, "axis"); Mat X(2, 3); X << 1, 2, 3, 6, 5, 4; std::vector<std::vector<int>> L = {{1, 2}, {0, 3}};
  MC_CHECK(mc::throws([&] { argsort<Mat, IMat, IVec>(X, a); }), "argsort accepted axis " << a); MC_CHECK(mc::throws([&] { common::sort<Mat>(X, a); }), "sort accepted axis " << a);
  MC_CHECK(mc::throws([&] { common::argmax<Mat, Vec, IVec>(X, a); }), "argmax accepted axis " << a); MC_CHECK(mc::throws([&] { common::argmin<Mat, Vec, IVec>(X, a); }), "argmin accepted axis " << a);
  MC_CHECK(mc::throws([&] { common::sort<int>(L, a); }), "list sort accepted axis " << a); mc::step(5); mc::validated(5); mc::state(a); MC_LOG("axis " << a);
}
MC_SCENARIO(vectors, 3) {
  static const int V[] = {3, 1, 2}; int n = mc::choose(mc::thorough() ? 9 : 7, "n"); if (n < 2) { mc::choose(1); } std::vector<int> x; std::vector<double> d; std::vector<std::string> s;
  for (int i = 0; i < n; ++i) { x.push_back(mc::pick(V, "x")); d.push_back(x.back() / 4.0); s.push_back(std::string(1, 'a' + x.back())); } if (n < 2) mc::choose(1);
  MC_LOG(mc::str(x)); mc::state(x);
  for (int rev = 0; rev < 2; ++rev) {
    auto a = argsort<int>(x, rev); auto b = argsort<double>(d, rev); auto c = argsort<std::string>(s, rev); mc::step(3); auto srt = x; std::sort(srt.begin(), srt.end()); if (rev) std::reverse(srt.begin(), srt.end());
    for (auto* p : {&a, &b, &c}) { std::set<std::size_t> seen; MC_CHECK((int)p->size() == n, "argsort of a list of " << n << " has " << p->size() << " entries");
      for (int i = 0; i < n; ++i) MC_CHECK((*p)[i] < (std::size_t)n && seen.insert((*p)[i]).second && x[(*p)[i]] == srt[i], "argsort(reverse=" << rev << ") of " << mc::str(x) << " is " << mc::str(*p)); }
    mc::validated(3);
  }
}
MC_SCENARIO(nested_lists, 3) {
  static const int V[] = {0, 1, 5}; int r = 1 + mc::choose(3, "rows"), c = 1 + mc::choose(3, "cols"); if (r * c > (mc::thorough() ? 9 : 6)) mc::prune();
  std::vector<std::vector<int>> x(r, std::vector<int>(c)); for (auto& a : x) for (auto& b : a) b = mc::pick(V, "x"); auto x0 = x; MC_LOG(mc::str(x)); mc::state(x);
  for (int axis = 0; axis < 2; ++axis) for (int rev = 0; rev < 2; ++rev) {
    auto s = common::sort<int>(x, axis, rev); mc::step(); MC_CHECK(x == x0, "input modified"); auto w = x;
    if (axis == 1) for (auto& row : w) { std::sort(row.begin(), row.end()); if (rev) std::reverse(row.begin(), row.end()); }
    else for (int j = 0; j < c; ++j) { std::vector<int> col; for (auto& row : w) col.push_back(row[j]); std::sort(col.begin(), col.end()); if (rev) std::reverse(col.begin(), col.end()); for (int i = 0; i < r; ++i) w[i][j] = col[i]; }
    MC_CHECK(s == w, "sort(axis=" << axis << ",reverse=" << rev << ") of " << mc::str(x) << " is " << mc::str(s) << " not " << mc::str(w)); mc::validated();
  }
}
MC_SCENARIO(map_max, 2) {
  static const int V[] = {-1, 0, 4}; int n = 1 + mc::choose(4, "n"), k0 = mc::choose(3, "key"); std::map<int, int> m; std::unordered_map<std::string, double> u;
  for (int i = 0; i < n; ++i) { int v = mc::pick(V, "v"); m[k0 - i * 3] = v; u[std::string(i + 1, 'k')] = v * 0.5; }
  auto p = common::max_element(m); auto q = common::max_element(u); mc::step(2); int best = -9; for (auto& e : m) best = std::max(best, e.second); MC_LOG("best " << best); { mc::H h; for (auto& e : m) { h.add(e.first); h.add(e.second); } mc::state_hash(h.h); }
  MC_CHECK(m.count(p.first) && m[p.first] == p.second && p.second == best, "max_element gave " << p.first << "->" << p.second << ", maximum is " << best); MC_CHECK(u.count(q.first) && q.second == best * 0.5, "max_element of unordered map"); mc::validated(2);
}
MC_SCENARIO(very_long, 2) {
  int n = mc::choose(2, "n") ? 70000 : 65537, k = mc::choose(3, "fill"), rev = mc::choose(2, "reverse"), axis = mc::choose(2, "axis"); std::vector<double> x(n); for (int i = 0; i < n; ++i) x[i] = k == 0 ? (i * 37L) % n * 0.5 : k == 1 ? -i : i == n - 1; mc::state(n, k, rev, axis); MC_LOG(n << " items, fill " << k);
  auto s = x; std::sort(s.begin(), s.end()); if (rev) std::reverse(s.begin(), s.end()); auto perm = [&](auto at, const char* what) { std::vector<char> seen(n, 0); for (int i = 0; i < n; ++i) { long a = at(i); MC_CHECK(a >= 0 && a < n && !seen[a] && x[a] == s[i], what << "(reverse=" << rev << ") of " << n << " items, fill " << k << ": position " << i << " points at " << a); seen[a] = 1; } mc::validated(); };
  auto l = argsort<double>(x, rev); MC_CHECK((int)l.size() == n, "argsort length"); perm([&](int i) { return (long)l[i]; }, "argsort of a list");
  Mat X = Eigen::Map<Mat>(x.data(), axis ? 1 : n, axis ? n : 1); IMat A = argsort<Mat, IMat, IVec>(X, axis, rev); Mat S = common::sort<Mat>(X, axis, rev); MC_CHECK(A.size() == n && S.size() == n, "shape"); perm([&](int i) { return (long)A.data()[i]; }, "argsort of a matrix"); for (int i = 0; i < n; ++i) MC_CHECK(S.data()[i] == s[i], "sort of " << n << " items at " << i);
  for (int a : {axis, -1}) { IVec mx = common::argmax<Mat, Vec, IVec>(X, a), mn = common::argmin<Mat, Vec, IVec>(X, a); MC_CHECK(mx.size() == 1 && mn.size() == 1 && mx(0) >= 0 && mx(0) < n && mn(0) >= 0 && mn(0) < n && x[mx(0)] == (rev ? s[0] : s[n - 1]) && x[mn(0)] == (rev ? s[n - 1] : s[0]), "argmax/argmin of " << n << " items, axis " << a << ": " << mx(0) << " " << mn(0)); }
  std::vector<std::vector<double>> L; if (axis) L.push_back(x); else for (double v : x) L.push_back({v}); auto r = common::sort<double>(L, axis, rev); for (int i = 0; i < n; ++i) MC_CHECK((axis ? r[0][i] : r[i][0]) == s[i], "list sort of " << n << " items at " << i); std::map<int, double> m; for (int i = 0; i < n; ++i) m[i] = x[i]; auto b = common::max_element(m); MC_CHECK(b.second == (rev ? s[0] : s[n - 1]) && x[b.first] == b.second, "max_element of " << n << " entries"); mc::step(8); mc::validated(4); }
namespace { template <class T> void typed(const char* name) {
  typedef std::numeric_limits<T> L; typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> TM; typedef Eigen::Matrix<T, Eigen::Dynamic, 1> TV; const T V[] = {0, 1, 2, L::max(), L::lowest(), T(L::max() / 2 + 1)}; int n = 2 + mc::choose(3, "n"); std::vector<T> x(n); for (T& v : x) v = V[mc::choose(6, "item")]; std::string h = std::string(name) + " " + mc::str(std::vector<double>(x.begin(), x.end())); MC_LOG(h); mc::state(std::string(name), h);
  for (int rev = 0; rev < 2; ++rev) { auto s = x; std::sort(s.begin(), s.end()); if (rev) std::reverse(s.begin(), s.end()); auto a = argsort<T>(x, rev); std::set<std::size_t> seen; MC_CHECK((int)a.size() == n, "argsort length"); for (int i = 0; i < n; ++i) MC_CHECK(a[i] < (std::size_t)n && seen.insert(a[i]).second && x[a[i]] == s[i], "argsort(reverse=" << rev << ") of " << h);
    std::vector<std::vector<T>> col, row(1, x); for (T v : x) col.push_back({v}); auto c = common::sort<T>(col, 0, rev), r = common::sort<T>(row, 1, rev); for (int i = 0; i < n; ++i) MC_CHECK(c[i][0] == s[i] && r[0][i] == s[i], "list sort(reverse=" << rev << ") of " << h);
    for (int axis = 0; axis < 2; ++axis) { TM X = Eigen::Map<TM>(x.data(), axis ? 1 : n, axis ? n : 1); TM S = common::sort<TM>(X, axis, rev); IMat A = argsort<TM, IMat, IVec>(X, axis, rev); seen.clear(); for (int i = 0; i < n; ++i) { MC_CHECK(S.data()[i] == s[i], "sort(axis=" << axis << ",reverse=" << rev << ") of " << h); long p = A.data()[i]; MC_CHECK(p >= 0 && p < n && seen.insert(p).second && x[p] == s[i], "argsort(axis=" << axis << ",reverse=" << rev << ") of " << h); } if (rev) for (int ax : {axis, -1}) { IVec mx = common::argmax<TM, TV, IVec>(X, ax), mn = common::argmin<TM, TV, IVec>(X, ax); MC_CHECK(mx.size() == 1 && mn.size() == 1 && x.at(mx(0)) == s[0] && x.at(mn(0)) == s[n - 1], "argmax/argmin(axis=" << ax << ") of " << h); } } mc::step(7); }
  std::map<int, T> m; for (int i = 0; i < n; ++i) m[i] = x[i]; auto p = common::max_element(m); MC_CHECK(m.count(p.first) && x[p.first] == p.second && p.second == *std::max_element(x.begin(), x.end()), "max_element of " << h); mc::step(); mc::validated(12); } }
MC_SCENARIO(element_types, 2) { switch (mc::choose(7, "type")) { case 0: return typed<std::size_t>("size_t"); case 1: return typed<unsigned>("unsigned"); case 2: return typed<int>("int"); case 3: return typed<long>("long"); case 4: return typed<short>("short"); case 5: return typed<unsigned char>("byte"); default: return typed<float>("float"); } }
