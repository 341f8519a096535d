// flags: -O1
//# split: every n in 0..6 (thorough 7) x 1..3 features x 13 train fractions x shuffle on/off, every one of the n! shuffle outcomes; every n up to 40 (thorough 120) with numbered shuffle streams
//# shuffle_data: every shape up to 5x4 (thorough 6x5), both axes and the labelled form, every shuffle outcome; outputs distinct from inputs
//# every order of 2..4 samples appears among 3000 numbered random streams
//# divide_on_feature: every column of up to 6 (thorough 8) values over {-1,0,0.5,2} and every threshold in {-2,-1,0,0.5,1,2}
//! the random sources are std::shuffle / std engines (any other std facility seeded from the clock or random_device is pinned to numbered streams)
//# split and shuffle of 41, 64, 100, 257, 1030 samples x 1, 5, 17, 40 features; the default split (0.75, shuffled); divide_on_feature on values that differ in the last bit, beyond float precision or within one integer
//# the size of both parts for every n up to 130 (thorough 400) x every share k/100 and k/7, unshuffled
//# 66000 samples split, shuffled and divided
#include "core.hpp"
using namespace openml;
namespace {
Mat numbered(int n, int d) { Mat X(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = 1000 * (i + 1) + j; return X; }
Vec labels(int n) { Vec y(n); for (int i = 0; i < n; ++i) y(i) = 1000 * (i + 1) + 0.5; return y; }
const double FR[] = {0.0, 0.1, 0.25, 1.0 / 3, 0.4, 0.5, 0.6, 2.0 / 3, 0.75, 0.8, 0.9, 0.999, 1.0};
void check_split(int n, int d, double fr, bool sh) {
  Mat X = numbered(n, d); Vec y = labels(n); const Mat X0 = X; const Vec y0 = y;
  Mat a, b; Vec ya, yb; std::tie(a, b, ya, yb) = data::train_test_split<Mat, Vec>(X, y, fr, sh); mc::step();
  MC_CHECK(X == X0 && y == y0, "train_test_split modified its inputs");
  long want = (long)std::floor(n * fr);
  MC_LOG("n=" << n << " d=" << d << " train_size=" << fr << " shuffle=" << sh << " -> train " << mc::str(ya.transpose()) << " test " << mc::str(yb.transpose()));
  MC_CHECK(a.rows() == want && ya.rows() == want, "train part has " << a.rows() << " rows / " << ya.rows() << " labels, expected floor(" << n << "*" << fr << ")=" << want);
  MC_CHECK(b.rows() == n - want && yb.rows() == n - want, "test part has " << b.rows() << " rows / " << yb.rows() << " labels, expected " << n - want);
  MC_CHECK(a.cols() == d && b.cols() == d, "feature count changed");
  std::set<int> seen; std::vector<int> order;
  for (int k = 0; k < n; ++k) {
    bool tr = k < want; long r = tr ? k : k - want; double lab = tr ? ya(r) : yb(r); int id = (int)std::floor(lab / 1000);
    MC_CHECK(id >= 1 && id <= n && lab == 1000 * id + 0.5, "label " << lab << " is not one of the inputs");
    MC_CHECK(seen.insert(id).second, "sample " << id << " appears twice");
    order.push_back(id);
    for (int j = 0; j < d; ++j) MC_CHECK((tr ? a(r, j) : b(r, j)) == 1000 * id + j, "row " << k << " carries label of sample " << id << " but feature " << j << " is " << (tr ? a(r, j) : b(r, j)));
  }
  if (!sh) for (int k = 0; k < n; ++k) MC_CHECK(order[k] == k + 1, "unshuffled split reordered the samples");
  mc::state(n, d, fr, sh, order); mc::validated();
}
}
MC_SCENARIO(split_all_orders, 3) {
  int n = mc::choose(mc::thorough() ? 8 : 7, "n"), d = 1 + mc::choose(3, "d"), f = mc::choose(13, "train_size");
  bool sh = mc::choose(2, "shuffle"); check_split(n, d, FR[f], sh);
}
MC_SCENARIO(split_sizes, 1) {
  int n = 1 + mc::choose(mc::thorough() ? 120 : 40, "n"), d = 1 + mc::choose(4, "d"), f = mc::choose(13, "train_size"); bool sh = mc::choose(2, "shuffle");
  mc::env_stream(1 + mc::choose(3, "stream")); check_split(n, d, FR[f], sh);
}
MC_SCENARIO(shuffle_axis, 3) {
  int n = 1 + mc::choose(mc::thorough() ? 6 : 5, "n"), d = 1 + mc::choose(mc::thorough() ? 5 : 4, "d"), axis = mc::choose(2, "axis");
  Mat X = numbered(n, d); const Mat X0 = X; Mat S;
  if (axis == 1 && mc::choose(2, "default axis")) random::shuffle_data<Mat>(X, S); else random::shuffle_data<Mat>(X, S, axis);
  mc::step(); MC_CHECK(X == X0, "shuffle_data modified its input");
  MC_CHECK(S.rows() == n && S.cols() == d, "shuffled matrix has shape " << S.rows() << "x" << S.cols());
  std::vector<int> ord; std::set<int> seen;
  if (axis == 1) { for (int i = 0; i < n; ++i) { int id = (int)(S(i, 0) / 1000); MC_CHECK(id >= 1 && id <= n && seen.insert(id).second && S.row(i) == X0.row(id - 1), "row " << i << " is not an unused input row: " << mc::str(S)); ord.push_back(id); } }
  else { for (int j = 0; j < d; ++j) { int id = (int)std::lround(S(0, j) - 1000); MC_CHECK(id >= 0 && id < d && seen.insert(id).second && S.col(j) == X0.col(id), "column " << j << " is not an unused input column: " << mc::str(S)); ord.push_back(id); } }
  MC_LOG("axis " << axis << " " << n << "x" << d << " order " << mc::str(ord)); mc::state(n, d, axis, ord); mc::validated();
}
MC_SCENARIO(shuffle_labelled, 2) {
  int n = mc::choose(mc::thorough() ? 8 : 7, "n"), d = 1 + mc::choose(3, "d"); int twice = n <= 3 ? mc::choose(2, "twice") : 0;
  Mat X = numbered(n, d); Vec y = labels(n); const Mat X0 = X; const Vec y0 = y; Mat S; Vec t;
  for (int rep = 0; rep <= twice; ++rep) {
    random::shuffle_data<Mat, Vec>(X, y, S, t); mc::step(); MC_CHECK(X == X0 && y == y0, "shuffle_data modified its inputs");
    MC_CHECK(S.rows() == n && t.rows() == n && S.cols() == d, "shape changed");
    std::vector<int> ord; std::set<int> seen;
    for (int i = 0; i < n; ++i) { int id = (int)(t(i) / 1000); MC_CHECK(id >= 1 && id <= n && t(i) == 1000 * id + 0.5 && seen.insert(id).second, "label " << t(i) << " repeated or invented"); MC_CHECK(S.row(i) == X0.row(id - 1), "row " << i << " and its label come from different samples"); ord.push_back(id); }
    MC_LOG("n=" << n << " order " << mc::str(ord)); mc::state(n, d, rep, ord); mc::validated();
  }
}
MC_SCENARIO(divide, 3) {
  static const double V[] = {-1, 0, 0.5, 2}, T[] = {-2, -1, 0, 0.5, 1, 2};
  int n = mc::choose(mc::thorough() ? 9 : 7, "n"), d = 1 + mc::choose(2, "d"), f = mc::choose(d, "feature"); double t = mc::pick(T, "threshold");
  Mat X = Mat::Constant(n, d, 0.25); for (int i = 0; i < n; ++i) { X(i, f) = mc::pick(V, "x"); if (d == 2) X(i, 1 - f) = 0.5 * (i % 3) - t; }
  const Mat X0 = X; auto r = data::divide_on_feature<Mat>(X, (std::size_t)f, t); mc::step(); MC_CHECK(X == X0, "divide_on_feature modified its input");
  std::vector<std::size_t> k, e; for (int i = 0; i < n; ++i) (X(i, f) <= t ? k : e).push_back(i);
  MC_LOG("X=" << mc::str(X) << " feature " << f << " threshold " << t); mc::state(X, f, t);
  MC_CHECK(std::get<0>(r) == k && std::get<1>(r) == e, "divide_on_feature " << mc::str(X) << " feature " << f << " <= " << t << " gave " << mc::str(std::get<0>(r)) << " / " << mc::str(std::get<1>(r))); mc::validated();
}
MC_SCENARIO(every_order_attainable, 1) {
  // over 3000 numbered random streams each of the n! orders shows up
  int n = 2 + mc::choose(3, "n"), which = mc::choose(3, "function"); std::set<std::vector<int>> seen; long f = 1; for (int i = 2; i <= n; ++i) f *= i;
  Mat X = numbered(n, 1); Vec y = labels(n);
  for (int s = 1; s <= 3000 && (long)seen.size() < f; ++s) {
    mc::env_stream(s); Mat S; Vec t; std::vector<int> o;
    if (which == 0) { Mat a, b; Vec ya, yb; std::tie(a, b, ya, yb) = data::train_test_split<Mat, Vec>(X, y, 0.5, true); for (long i = 0; i < ya.size(); ++i) o.push_back((int)ya(i)); for (long i = 0; i < yb.size(); ++i) o.push_back((int)yb(i)); }
    else if (which == 1) { random::shuffle_data<Mat>(X, S, 1); for (int i = 0; i < n; ++i) o.push_back((int)S(i, 0)); }
    else { random::shuffle_data<Mat, Vec>(X, y, S, t); for (int i = 0; i < n; ++i) o.push_back((int)t(i)); }
    mc::step(); seen.insert(o);
  }
  MC_LOG("n=" << n << " function " << which << " orders seen " << seen.size()); mc::state(n, which); mc::validated();
  MC_CHECK((long)seen.size() == f, "only " << seen.size() << " of " << f << " orders are ever produced");
}
MC_SCENARIO(large, 2) {
  static const int N[] = {41, 64, 100, 257, 1030}, D[] = {1, 5, 17, 40}; int n = mc::pick(N, "n"), d = mc::pick(D, "d"), f = mc::choose(13, "train_size"); bool sh = mc::choose(2, "shuffle"); mc::env_stream(n + d); check_split(n, d, FR[f], sh); if (f) return;
  Mat X = numbered(n, d), S; Vec y = labels(n), t; random::shuffle_data<Mat, Vec>(X, y, S, t); mc::step(); std::set<int> seen; MC_CHECK(S.rows() == n && t.rows() == n && S.cols() == d, "shape changed");
  for (int i = 0; i < n; ++i) { int id = (int)(t(i) / 1000); MC_CHECK(id >= 1 && id <= n && t(i) == 1000 * id + 0.5 && seen.insert(id).second, "label " << t(i) << " repeated or invented"); MC_CHECK(S.row(i) == X.row(id - 1), "row " << i << " and its label come from different samples"); }
  Mat R; random::shuffle_data<Mat>(X, R, 1); mc::step(); seen.clear(); for (int i = 0; i < n; ++i) { int id = (int)(R(i, 0) / 1000); MC_CHECK(id >= 1 && id <= n && seen.insert(id).second && R.row(i) == X.row(id - 1), "row " << i << " is not an unused input row"); }
  Mat Q; random::shuffle_data<Mat>(X, Q, 0); mc::step(); seen.clear(); for (int j = 0; j < d; ++j) { int id = (int)std::lround(Q(0, j) - 1000); MC_CHECK(id >= 0 && id < d && seen.insert(id).second && Q.col(j) == X.col(id), "column " << j << " is not an unused input column"); } mc::validated(3);
}
MC_SCENARIO(split_defaults, 1) {
  int n = 1 + mc::choose(30, "n"); mc::env_stream(n); Mat X = numbered(n, 2); Vec y = labels(n); Mat a, b; Vec ya, yb; std::tie(a, b, ya, yb) = data::train_test_split<Mat, Vec>(X, y); mc::step(); mc::state(n); MC_LOG(n); long want = (long)std::floor(n * 0.75);
  MC_CHECK(a.rows() == want && b.rows() == n - want && ya.size() == want && yb.size() == n - want, "default split of " << n << " puts " << a.rows() << " in the training part"); std::set<double> s(ya.data(), ya.data() + ya.size()); s.insert(yb.data(), yb.data() + yb.size()); MC_CHECK((long)s.size() == n, "samples lost"); for (long i = 0; i < want; ++i) MC_CHECK(a(i, 0) == ya(i) - 0.5, "label of another sample"); for (long i = 0; i < n - want; ++i) MC_CHECK(b(i, 0) == yb(i) - 0.5, "label of another sample"); if (n >= 16) { bool same = true; for (long i = 0; i < want; ++i) same &= ya(i) == y(i); MC_CHECK(!same, "the default split does not shuffle " << n << " samples"); } mc::validated();
}
MC_SCENARIO(divide_fine, 2) {
  static const double V[] = {1, 1 + 2.220446049250313e-16, 1 - 1e-9, 16777217, 16777216, -0.25, 0.25, 1e300, -1e300, 5e-324, -0.0}; int n = 2 + mc::choose(2, "n"), d = 1 + mc::choose(2, "d"); double t = mc::pick(V, "threshold"); Mat X = Mat::Zero(n, d); for (int i = 0; i < n; ++i) X(i, d - 1) = mc::pick(V, "x"); auto r = data::divide_on_feature<Mat>(X, (std::size_t)(d - 1), t); mc::step(); mc::state(X, t); MC_LOG(mc::str(X)); std::vector<std::size_t> k, e; for (int i = 0; i < n; ++i) (X(i, d - 1) <= t ? k : e).push_back(i);
  MC_CHECK(std::get<0>(r) == k && std::get<1>(r) == e, "divide_on_feature " << mc::str(X) << " <= " << t << " gave " << mc::str(std::get<0>(r)) << " / " << mc::str(std::get<1>(r))); mc::validated();
}
MC_SCENARIO(shares, 1) {
  int n = 1 + mc::choose(mc::thorough() ? 400 : 130, "n"), k = mc::choose(109, "share"); double f = k <= 100 ? k / 100.0 : (k - 101) / 7.0; Mat X = numbered(n, 1), a, b; Vec y = labels(n), ya, yb; mc::state(n, k); MC_LOG(n << " " << f);
  std::tie(a, b, ya, yb) = data::train_test_split<Mat, Vec>(X, y, f, false); mc::step(); long want = (long)std::floor(n * f); MC_CHECK(a.rows() == want && b.rows() == n - want && ya.size() == want && yb.size() == n - want, "a share of " << f << " of " << n << " samples gives parts of " << a.rows() << " and " << b.rows() << ", expected " << want << " and " << n - want);
  MC_CHECK(ya == y.head(want) && yb == y.tail(n - want) && a.col(0) == X.col(0).head(want) && b.col(0) == X.col(0).tail(n - want), "unshuffled parts are not the head and the tail"); mc::validated();
}
MC_SCENARIO(very_large, 2) {
  int n = mc::choose(2, "n") ? 65537 : 70000, f = mc::choose(4, "share"); bool sh = mc::choose(2, "shuffle"); static const double S[] = {0.5, 0.75, 0.99, 0.001}; Mat X(n, 2); Vec y(n); for (int i = 0; i < n; ++i) { X(i, 0) = i; X(i, 1) = -i; y(i) = i + 0.5; } mc::env_stream(f + 1); mc::state(n, f, sh); MC_LOG(n << " share " << S[f]); Mat a, b; Vec ya, yb; std::tie(a, b, ya, yb) = data::train_test_split<Mat, Vec>(X, y, S[f], sh); long want = (long)std::floor(n * S[f]); MC_CHECK(a.rows() == want && b.rows() == n - want && ya.size() == want && yb.size() == n - want, "split of " << n << " puts " << a.rows() << " in the training part");
  std::vector<char> seen(n, 0); long moved = 0; auto part = [&](const Mat& A, const Vec& l, const char* w) { for (long i = 0; i < l.size(); ++i) { long id = (long)A(i, 0); MC_CHECK(id >= 0 && id < n && A(i, 0) == id && A(i, 1) == -id && l(i) == id + 0.5 && !seen[id], w << " of " << n << ": row " << i << " is " << mc::str(A.row(i)) << " with label " << l(i)); seen[id] = 1; moved += id != i; } mc::validated(); }; part(a, ya, "training part"); if (!sh) for (long i = 0; i < want; ++i) MC_CHECK(a(i, 0) == i, "unshuffled split moves row " << i); part(b, yb, "test part"); if (f == 0) {
    Mat T; Vec t; random::shuffle_data<Mat, Vec>(X, y, T, t); std::fill(seen.begin(), seen.end(), 0); MC_CHECK(T.rows() == n && t.size() == n, "shuffle_data changed the shape"); moved = 0; part(T, t, "shuffled data"); MC_CHECK(moved > n / 2, "shuffle_data moves only " << moved << " of " << n << " samples"); auto r = data::divide_on_feature<Mat>(X, (std::size_t)1, -65535.5); auto& le = std::get<0>(r); auto& gt = std::get<1>(r); MC_CHECK((long)le.size() == n - 65536 && (long)gt.size() == 65536, "divide_on_feature of " << n << " samples gives " << le.size() << " and " << gt.size()); for (std::size_t i = 0; i < le.size(); ++i) MC_CHECK(le[i] == 65536 + i, "divide_on_feature: " << le[i]); for (std::size_t i = 0; i < gt.size(); ++i) MC_CHECK(gt[i] == i, "divide_on_feature: " << gt[i]); mc::step(2); } mc::step(); }
