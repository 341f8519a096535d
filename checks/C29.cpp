// flags: -O1
// debug: off
//# classification tree: every data set with 1-4 samples x 1 feature and 2-3 x 2 (4 x 2 binary) over {0,1,3} with every label vector over 2 (n = 3: 3) label values from six alphabets (fractional, negative, huge, equal up to the ninth digit); gini/entropy x nine limit settings (min split 0/2/3/5, min leaf 0/1/2, depth 0/1/4/60, min decrease 0/1e-7/0.2); patterned sets up to 24x4 and 40/60 x 9/17 with 2-4 classes; training rows, points between and outside, one-row and long batches; refit sequences
//# every data set with 2-4 samples x 1 feature and 2-3 x 2 over six alphabets of feature values (equal up to the ninth digit, around zero, consecutive beyond float precision, neighbouring doubles, near the largest and the smallest double) and scaled by 2^-200, 2^-30, 2^30, 2^200; copies of a fitted tree
//# two, four and eight samples of two balanced classes whose best split decreases the impurity by exactly the minimum, or by the next larger or smaller number
//! set-valued reference: any split with maximal impurity decrease and any threshold between the neighbouring values is allowed; a node is split only if its depth (root 0) is at most max_depth and both sides keep min_samples_leaf samples
//# one column with 65..700 distinct values among 1, 2 or 6 columns and a step at every rank, depth limited to the one split or not; three steps
//# alternating labels in one column of 40, 300, 310 (thorough 560) samples: the chain of single cuts reaches exactly the depth limit of 0, 1, 5, 70, 127..130, 254..257, 270 or none
#include "core.hpp"
#include "treeref.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
using namespace openml; using namespace treeref;
namespace {
typedef decision_tree::DecisionTreeClassifier<double> DT;
const Params LIM[] = {{"", 2, 0, 4, 1e-7, 0}, {"", 2, 0, 60, 0, 0}, {"", 0, 0, 60, 1e-7, 0}, {"", 3, 0, 60, 1e-7, 0}, {"", 5, 1, 3, 1e-7, 0}, {"", 2, 1, 0, 1e-7, 0}, {"", 2, 2, 60, 1e-7, 0}, {"", 2, 0, 1, 0, 0}, {"", 2, 1, 60, 0.2, 0}};
const double LB[6][4] = {{0, 1, 2, 3}, {-3, 7, 2.5, 11}, {10, 4, 1e6, -1}, {0.5, 0.25, -0.5, 0.75}, {16777217, 16777216, 16777218, 3}, {1, 1 + 1e-9, 1 - 1e-9, 1 + 2e-9}};
std::string bytes(const Vec& v) { return std::string((const char*)v.data(), v.size() * sizeof(double)); }
template <class M> void judge(M& m, const Mat& X, const Vec& y, const Params& p, const std::string& who) {
  std::string h = who + show(p) + " on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); const Mat X0 = X; const Vec y0 = y; m.fit(X, y); mc::step(); MC_CHECK(X == X0 && y == y0, h << " modified its data"); std::set<double> cs(y.data(), y.data() + y.size()); std::vector<double> cls(cs.begin(), cs.end()); long K = cls.size(); Tree t(X, y, p, false);
  Mat Q = queries(X); std::map<std::string, Vec> same; for (const Mat& B : {Mat(X), Q, mc::tall(X, Q), Mat(X.bottomRows(1)), Mat(Q.row(2))}) { const Mat B0 = B; Mat pr = m.predict_prob(B); Vec l = m.predict(B); mc::step(2); MC_CHECK(B == B0, h << ": prediction modified its data"); MC_CHECK(pr.rows() == B.rows() && pr.cols() == K && l.size() == B.rows(), h << ": prediction shapes " << mc::str(pr) << mc::str(l));
    for (long i = 0; i < B.rows(); ++i) { auto L = t.leaves(B.row(i).transpose()); bool ok = false; std::string all; for (Mask s : L) { Vec d = Vec::Zero(K); for (long r = 0; r < y.size(); ++r) if (s >> r & 1) d(std::lower_bound(cls.begin(), cls.end(), y(r)) - cls.begin()) += 1; d /= d.sum(); all += mc::str(d.transpose()) + " "; ok |= mc::nearM(pr.row(i).transpose(), d, 1e-12); } MC_CHECK(ok, h << ": class probabilities " << mc::str(pr.row(i)) << " for " << mc::str(B.row(i)) << ", allowed are " << all); long c = std::lower_bound(cls.begin(), cls.end(), l(i)) - cls.begin(); MC_CHECK(c < K && cls[c] == l(i), h << ": predicts " << l(i) << ", no training label"); MC_CHECK(pr(i, c) >= pr.row(i).maxCoeff() - 1e-12, h << ": predicts " << l(i) << " with probabilities " << mc::str(pr.row(i))); Vec both(K + 1); both << pr.row(i).transpose(), l(i); auto in = same.emplace(bytes(B.row(i)), both); MC_CHECK(in.first->second == both, h << ": two answers for " << mc::str(B.row(i)) << ": " << mc::str(both) << " and " << mc::str(in.first->second)); } mc::validated(2 * B.rows()); }
}
template <class M> void make(const Params& p, M f) { if (p.crit == "gini" && p.min_dec == 1e-7 && p.max_depth == 4) { mc::Dirty<DT> m(0xA5); f(*m, "default classification tree"); } else { mc::Dirty<DT> m(0xA5, p.crit, (std::size_t)p.min_split, (std::size_t)p.min_leaf, (std::size_t)p.max_depth, p.min_dec); f(*m, "classification tree"); } }
}
MC_SCENARIO(small, 4) { static const double U[] = {0, 1, 3}; static const int N[] = {1, 2, 3, 4, 2, 3, 4}, F[] = {1, 1, 1, 1, 2, 2, 2}; int s = mc::choose(7, "shape"), n = N[s], f = F[s], K = n == 3 && f == 1 ? 3 : 2, c = 1; for (int i = 0; i < n; ++i) c *= K; c = mc::choose(c, "labels"); Params p = LIM[mc::choose(9, "limits")]; p.crit = mc::choose(2, "criterion") ? "entropy" : "gini"; Mat X(n, f); Vec y(n); int cc = c; for (int i = 0; i < n; ++i) { y(i) = LB[c % 6][cc % K]; cc /= K; } for (int i = 0; i < n * f; ++i) X.data()[i] = s == 6 ? mc::choose(2) : mc::pick(U); mc::state(X, y, p.crit, p.min_split, p.min_leaf, p.max_depth, p.min_dec); make(p, [&](DT& m, const char* w) { judge(m, X, y, p, w); }); }
MC_SCENARIO(shapes, 4) { int n = mc::size(5, 24, {40, 60}, "n"), f = mc::size(1, 4, {9, 17}, "f"), K = 2 + mc::choose(3, "classes"), d = mc::choose(3, "data"); if (n > 24 && (f > 9 || (f > 2 && d == 2))) mc::prune(); Params p = LIM[mc::choose(9, "limits")]; p.crit = mc::choose(2, "criterion") ? "entropy" : "gini"; Mat X = pattern(n, f, d); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[(d + n) % 6][d == 1 ? (X(i, 0) > 1) + (X(i, f - 1) > 0 && K > 2) + (i == 3 && K > 3) : (i * 5 + i / 3) % K]; mc::state(X, y, p.crit, p.min_split, p.min_leaf, p.max_depth, p.min_dec); make(p, [&](DT& m, const char* w) { judge(m, X, y, p, w); }); }
MC_SCENARIO(exact, 3) { // no limits, every prefix split gains: the training data is reproduced
  int n = 2 + mc::choose(9, "n"), k = mc::choose(3, "data"), e = mc::choose(2, "criterion"); Mat X(n, 2); Vec y(n); for (int i = 0; i < n; ++i) { X(i, 0) = (i * 7) % 11 + (k == 1 ? 1e5 : 0); X(i, 1) = k == 2 ? 1 : i / 2; y(i) = LB[k][(((i * 7) % 11) * 3 / 5) % (k == 0 ? 4 : 2)]; } mc::state(X, y, e); DT m(e ? "entropy" : "gini", 2, 0, 60, 0); m.fit(X, y); Vec l = m.predict(X); mc::step(2); MC_CHECK(l == y, "an unlimited classification tree labels its training data X=" << mc::str(X) << " y=" << mc::str(y) << " as " << mc::str(l)); DT bad("mse", 2, 0, 4, 0); if ((y.array() != y(0)).any()) MC_CHECK(mc::throws([&] { bad.fit(X, y); }), "an unknown criterion is accepted"); mc::validated(2); }
MC_SCENARIO(history, 2) { Params p = LIM[mc::choose(9, "limits")]; p.crit = mc::choose(2, "criterion") ? "entropy" : "gini"; make(p, [&](DT& m, const char* w) { DT o; for (int t = 0; t < 3; ++t) { int k = mc::choose(4, "data"); mc::state(p.crit, p.min_split, p.min_leaf, p.max_depth, t, k); static const int N[] = {4, 7, 5, 6}, F[] = {1, 3, 2, 2}; Mat X = pattern(N[k], F[k], k % 3); Vec y(N[k]); for (int i = 0; i < N[k]; ++i) y(i) = k == 3 ? 8 : LB[(k + t) % 6][i % (2 + k % 2)]; judge(m, X, y, p, std::string("refitted ") + w); Mat pr = m.predict_prob(X); o.fit(X * 3, y); MC_CHECK(m.predict_prob(X) == pr, "another tree changed the predictions"); } }); }
MC_SCENARIO(fine, 3) { static const double A0[] = {1, 1 + 1e-9, 16777217}, A1[] = {-0.25, 0.25, 0.75}, A2[] = {16777216, 16777217, 0}, A3[] = {1, 1 + 0x1p-52, 1 + 0x1p-51}, A4[] = {1.7e308, 1.6e308, -1.7e308}, A5[] = {0, 5e-324, 1e-323}; static const double* AL[] = {A0, A1, A2, A3, A4, A5}; static const int E[] = {0, -200, -30, 30, 200}; static const int N[] = {2, 3, 4, 2, 3}, F[] = {1, 1, 1, 2, 2}; int s = mc::choose(5, "shape"), n = N[s], f = F[s], a = mc::choose(6, "alphabet"), e = mc::choose(a > 2 ? 1 : mc::thorough() ? 5 : a == 1 ? 5 : 1, "scale"), c = mc::choose(1 << n, "labels"); if (s == 4 && !mc::thorough() && (c < 2 || c > 5)) mc::prune(); Params p = LIM[mc::choose(2, "limits") ? 5 : 1]; p.crit = mc::choose(2, "criterion") ? "entropy" : "gini"; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) y(i) = LB[c % 6][c >> i & 1]; for (int i = 0; i < n * f; ++i) X.data()[i] = std::ldexp(AL[a][mc::choose(3, "x")], E[e]); mc::state(X, y, p.crit, p.max_depth); make(p, [&](DT& m, const char* w) { judge(m, X, y, p, w); }); }
MC_SCENARIO(copies, 2) { int k = mc::choose(3, "data"), q = mc::choose(3, "other"), how = mc::choose(3, "how"); Params p = LIM[1]; p.crit = mc::choose(2, "criterion") ? "entropy" : "gini"; Mat X = pattern(7, 2, k), X2 = pattern(6, 3, q); Vec y(7), y2(6); for (int i = 0; i < 7; ++i) y(i) = LB[k][i % 3]; for (int i = 0; i < 6; ++i) y2(i) = LB[3][i % 2]; mc::state(k, q, how, p.crit); MC_LOG(k << q << how); DT a(p.crit, 2, 0, 60, 0); a.fit(X, y); Mat B = mc::tall(X, queries(X)), pr = a.predict_prob(B); Vec l = a.predict(B); std::unique_ptr<DT> c(new DT(a)); if (how == 1) { DT d; d.fit(X2, y2); d = a; *c = d; } if (how == 2) { DT d(*c); c.reset(new DT(d)); } a.fit(X2, y2); mc::step(4); MC_CHECK(c->predict_prob(B) == pr && c->predict(B) == l, "refitting a classification tree on X=" << mc::str(X2) << " changed the predictions of its copy fitted on X=" << mc::str(X) << " y=" << mc::str(y)); Mat B2 = mc::tall(X2, queries(X2)), p2 = a.predict_prob(B2); c.reset(); MC_CHECK(a.predict_prob(B2) == p2, "destroying a copy changed the original"); mc::validated(2); }
MC_SCENARIO(boundary, 2) { int n = 2 << mc::choose(3, "n"), e = mc::choose(2, "criterion"), w = mc::choose(3, "limit"), f = mc::choose(2, "constant column"), l = mc::choose(2, "labels"); double g = e ? 1 : 0.5, lim = w == 0 ? g : w == 1 ? std::nextafter(g, 0) : std::nextafter(g, 1e300); Mat X(n, 1 + f); Vec y(n); for (int i = 0; i < n; ++i) { X(i, f) = (i * 3 + 1) % n; if (f) X(i, 0) = 4; y(i) = X(i, f) < n / 2 ? LB[l][0] : LB[l][1]; } mc::state(X, y, e, lim); DT m(e ? "entropy" : "gini", 2, 0, 0, lim); m.fit(X, y); Mat p = m.predict_prob(X); mc::step(2); std::string h = std::string("classification tree with ") + (e ? "entropy" : "gini") + " and min decrease " + mc::num(lim) + " (" + (w == 0 ? "equal to" : w == 1 ? "just below" : "just above") + " the best decrease " + mc::num(g) + ") on X=" + mc::str(X) + " y=" + mc::str(y); MC_LOG(h); for (int i = 0; i < n; ++i) MC_CHECK(p.cols() == 2 && mc::near(p.row(i).maxCoeff(), w == 1 ? 1 : 0.5, 1e-12), h << ": probabilities " << mc::str(p)); mc::validated(); }
MC_SCENARIO(long_columns, 2) { // more distinct values than any small set has: a step in one column, at every place
  static const int N[] = {65, 97, 129, 200, 301, 700}; int n = mc::pick(N, "n"), c = 1 + mc::choose(n - 1, "cut"), f = mc::choose(3, "columns"), e = mc::choose(2, "criterion"), dp = mc::choose(2, "depth"); if (n > 301 && !mc::thorough() && c % 16 > 1) mc::prune(); int w = f == 0 ? 0 : 1; Mat X(n, f == 0 ? 1 : f == 1 ? 2 : 6); Vec y(n); for (int i = 0; i < n; ++i) { X.row(i).setConstant(i % 2); int r = (int)((long)i * 8 % n); if (n % 2 == 0) r = (int)((long)i * 9 % n); X(i, w) = 0.5 * r - 7; y(i) = r >= c ? 7.0 : -3.0; }
  mc::state(n, c, f, e, dp); std::string h = std::string("classification tree, ") + (e ? "second" : "first") + " criterion, " + std::to_string(n) + " samples, step at rank " + std::to_string(c); MC_LOG(h); DT m(e ? "entropy" : "gini", 2, 0, dp ? 60 : 0, 1e-7); m.fit(X, y); Vec l = m.predict(X); mc::step(2); for (int i = 0; i < n; ++i) MC_CHECK(std::fabs(l(i) - y(i)) < 1e-9, h << ": predicts " << l(i) << " instead of " << y(i) << " for the value of rank " << (X(i, w) + 7) * 2); Mat Q = X.topRows(2); Q(0, w) = 0.5 * (c - 1) - 7; Q(1, w) = 0.5 * c - 7; Vec q = m.predict(Q); MC_CHECK(std::fabs(q(0) - -3.0) < 1e-9 && std::fabs(q(1) - 7.0) < 1e-9, h << ": " << mc::str(q) << " at the step"); mc::validated(n); }
MC_SCENARIO(staircase, 2) { static const int N[] = {66, 100, 150, 260}; int n = mc::pick(N, "n"), a = mc::choose(12, "first"), b = mc::choose(12, "second"), e = mc::choose(2, "criterion"), c1 = 1 + a * (n / 2 - 1) / 12, c2 = n / 2 + b * (n / 2 - 1) / 12; Mat X(n, 2); Vec y(n); for (int i = 0; i < n; ++i) { int r = (int)((long)i * 7 % n); if (n % 7 == 0) r = i; X(i, 0) = (i * 5) % 3; X(i, 1) = std::exp(r * 0.02); y(i) = r < c1 ? 4.0 : r < c2 ? -1.0 : 11.0; } mc::state(n, c1, c2, e); MC_LOG(n << " " << c1 << " " << c2 << " " << e); std::size_t dp = 60; DT m(e ? "entropy" : "gini", 2, 0, dp, 0.0); m.fit(X, y); Vec l = m.predict(X); mc::step(2); for (int i = 0; i < n; ++i) MC_CHECK(std::fabs(l(i) - y(i)) < 1e-9, "classification tree on " << n << " samples in three steps at ranks " << c1 << " and " << c2 << ": predicts " << l(i) << " instead of " << y(i)); mc::validated(n); }
MC_SCENARIO(deep, 2) { // the best cut of an alternating run always takes one sample off an end: every level separates one more
  static const int N[] = {40, 300, 310, 560}, D[] = {0, 1, 5, 70, 127, 128, 129, 130, 254, 255, 256, 257, 270, 100000}; int n = N[mc::choose(mc::thorough() ? 4 : 3, "n")]; std::size_t dp = mc::pick(D, "depth"); int e = mc::choose(2, "criterion"), r = mc::choose(2, "order"); Mat X(n, 1); Vec y(n); for (int i = 0; i < n; ++i) { int k = r ? n - 1 - i : i; X(i, 0) = k; y(i) = k % 2 ? 7 : -3; } mc::state(n, dp, e, r); std::string h = "classification tree of depth " + std::to_string(dp) + " on " + std::to_string(n) + " alternating samples"; MC_LOG(h); DT m(e ? "entropy" : "gini", 2, 0, dp, 0); m.fit(X, y); Vec l = m.predict(X); mc::step(2); MC_CHECK(l.size() == n, h);
  long right = 0, cut = std::min<long>(n, (long)dp + 1); for (int i = 0; i < n; ++i) right += std::fabs(l(i) - y(i)) < 1e-9; long rest = n - cut, lo = cut + rest / 2, hi = cut + (rest + 1) / 2; if (rest <= 1) lo = hi = n; MC_CHECK(right >= lo && right <= hi, h << " reproduces " << right << " of them, " << cut << " cuts reproduce " << lo); mc::validated(n); }
