// flags: -O1
//# combinations: every list of up to 6 distinct or repeated items and every k 0..7; thorough up to 10 items
//# contains/difference/is_equal/merge: every pair of lists of lengths 0..4 (thorough 5) over {1,2,3}
//# sortrows/remove_duplicate_rows: every list of 1..4 (thorough 5) rows of width 1..2 over {0,1,2} and up to 12 patterned rows of width up to 4, both directions
//# the same on pairs of lists of length 1..3 over 6 reals that differ in the last bit, beyond float precision or within one integer, and rows of such reals
//! difference without the sort flag is only called with sorted lists, as documented
//# set helpers on lists of 16, 17, 40, 257 items; 25..400 rows of width 1..12; combinations of up to 18 items
//# every pair of lists of 1-3 and 1-2 items, and their rows, over 0, 1, 2 and the extreme values of size_t, unsigned, int, long, short, unsigned char, float
#include "core.hpp"
using namespace openml;
namespace {
std::vector<int> list(int maxn, const char* l) { int n = mc::choose(maxn + 1, l); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(1 + mc::choose(3, "item")); return v; }
void rows_case(const std::vector<std::vector<int>>& x) {
  MC_LOG(mc::str(x)); mc::state(x); auto x0 = x;
  for (int rev = 0; rev < 2; ++rev) { auto s = common::sortrows<int>(x, rev); mc::step(); auto w = x; std::sort(w.begin(), w.end()); if (rev) std::reverse(w.begin(), w.end()); MC_CHECK(s == w, "sortrows(reverse=" << rev << ") of " << mc::str(x) << " is " << mc::str(s)); }
  auto u = common::remove_duplicate_rows<int>(x); mc::step(); std::vector<std::vector<int>> w; for (auto& r : x) if (std::find(w.begin(), w.end(), r) == w.end()) w.push_back(r);
  MC_CHECK(u == w, "remove_duplicate_rows of " << mc::str(x) << " is " << mc::str(u) << " not " << mc::str(w)); MC_CHECK(x == x0, "input modified"); mc::validated(3);
}
}
MC_SCENARIO(combos, 2) {
  int n = mc::choose(mc::thorough() ? 11 : 7, "n"), k = mc::choose(8, "k"), kind = mc::choose(3, "values"); std::vector<int> x; for (int i = 0; i < n; ++i) x.push_back(kind == 0 ? i : kind == 1 ? 9 - i : i / 2);
  auto c = common::combinations<int>(x, k); mc::step(); std::vector<std::vector<int>> w;
  if (k <= n) { std::vector<int> ix(k); std::iota(ix.begin(), ix.end(), 0); for (;;) { std::vector<int> t; for (int i : ix) t.push_back(x[i]); w.push_back(t); int p = k - 1; while (p >= 0 && ix[p] == n - k + p) --p; if (p < 0) break; ++ix[p]; for (int q = p + 1; q < k; ++q) ix[q] = ix[q - 1] + 1; } }
  MC_LOG(mc::str(x) << " choose " << k << " -> " << c.size()); mc::state(x, k); MC_CHECK(c == w, "combinations(" << mc::str(x) << "," << k << ")=" << mc::str(c) << " not " << mc::str(w)); mc::validated();
}
MC_SCENARIO(pairs, 2) {
  int m = mc::thorough() ? 5 : 4; auto a = list(m, "len a"), b = list(m, "len b"); if (a.empty() && b.empty()) mc::choose(1); MC_LOG(mc::str(a) << " " << mc::str(b)); mc::state(a, b);
  bool sub = true; for (int v : a) sub &= std::find(b.begin(), b.end(), v) != b.end(); MC_CHECK(common::contains<int>(a, b) == sub, "contains(" << mc::str(a) << "," << mc::str(b) << ") should be " << sub);
  MC_CHECK(common::is_equal<int>(a, b) == (a == b), "is_equal(" << mc::str(a) << "," << mc::str(b) << ") should be " << (a == b));
  std::set<int> sb(b.begin(), b.end()), d; for (int v : a) if (!sb.count(v)) d.insert(v); std::vector<int> dv(d.begin(), d.end());
  MC_CHECK(common::difference<int>(a, b, true) == dv, "difference(" << mc::str(a) << "," << mc::str(b) << ",sort)=" << mc::str(common::difference<int>(a, b, true)));
  auto sa = a, s2 = b; std::sort(sa.begin(), sa.end()); std::sort(s2.begin(), s2.end()); MC_CHECK(common::difference<int>(sa, s2) == dv, "difference(" << mc::str(sa) << "," << mc::str(s2) << ")=" << mc::str(common::difference<int>(sa, s2)));
  std::vector<int> w; for (std::size_t i = 0; i < a.size() || i < b.size(); ++i) { if (i < a.size()) w.push_back(a[i]); if (i < b.size()) w.push_back(b[i]); }
  MC_CHECK(common::merge<int>(a, b) == w, "merge(" << mc::str(a) << "," << mc::str(b) << ")=" << mc::str(common::merge<int>(a, b)));
  std::vector<std::string> p, q; for (int v : a) p.push_back(std::string(v, 'x')); for (int v : b) q.push_back(std::string(v, 'x')); MC_CHECK(common::contains<std::string>(p, q) == sub && common::is_equal<std::string>(p, q) == (a == b), "string lists");
  std::vector<double> fa(a.begin(), a.end()), fb(b.begin(), b.end()); for (auto& v : fa) v /= 4; for (auto& v : fb) v /= 4; auto fd = common::difference<double>(fa, fb, true); MC_CHECK(fd.size() == dv.size(), "difference of reals"); for (std::size_t i = 0; i < fd.size(); ++i) MC_CHECK(fd[i] == dv[i] / 4.0, "difference of reals " << mc::str(fd)); mc::step(8); mc::validated(8);
}
MC_SCENARIO(fine_reals, 2) {
  static const double V[] = {1, 1 + 2.220446049250313e-16, 0.25, -0.25, 16777217, 16777216}; int n = 1 + mc::choose(3, "len a"), m = 1 + mc::choose(3, "len b"); std::vector<double> a, b; for (int i = 0; i < n; ++i) a.push_back(mc::pick(V, "a")); for (int i = 0; i < m; ++i) b.push_back(mc::pick(V, "b")); MC_LOG(mc::str(a) << " " << mc::str(b)); mc::state(a, b);
  bool sub = true; for (double v : a) sub &= std::find(b.begin(), b.end(), v) != b.end(); MC_CHECK(common::contains<double>(a, b) == sub, "contains(" << mc::str(a) << "," << mc::str(b) << ") should be " << sub); MC_CHECK(common::is_equal<double>(a, b) == (a == b), "is_equal(" << mc::str(a) << "," << mc::str(b) << ")");
  std::set<double> sb(b.begin(), b.end()), d; for (double v : a) if (!sb.count(v)) d.insert(v); std::vector<double> dv(d.begin(), d.end()); auto r = common::difference<double>(a, b, true); MC_CHECK(r == dv, "difference(" << mc::str(a) << "," << mc::str(b) << ",sort)=" << mc::str(r)); mc::step(3);
  std::vector<std::vector<double>> x; for (double v : a) for (int i = 0; i < m; ++i) x.push_back({v, b[i]}); for (int rev = 0; rev < 2; ++rev) { auto s = common::sortrows<double>(x, rev); auto w = x; std::sort(w.begin(), w.end()); if (rev) std::reverse(w.begin(), w.end()); MC_CHECK(s == w, "sortrows(reverse=" << rev << ") of " << mc::str(x) << " is " << mc::str(s)); }
  auto u = common::remove_duplicate_rows<double>(x); std::vector<std::vector<double>> w; for (auto& q : x) if (std::find(w.begin(), w.end(), q) == w.end()) w.push_back(q); MC_CHECK(u == w, "remove_duplicate_rows of " << mc::str(x) << " is " << mc::str(u)); mc::step(3); mc::validated(6);
}
MC_SCENARIO(row_lists, 3) {
  int n = 1 + mc::choose(mc::thorough() ? 5 : 4, "rows"), c = 1 + mc::choose(2, "width"); std::vector<std::vector<int>> x(n, std::vector<int>(c)); for (auto& r : x) for (int& v : r) v = mc::choose(3, "x"); rows_case(x);
}
MC_SCENARIO(row_patterns, 2) {
  int n = 1 + mc::choose(mc::thorough() ? 40 : 24, "rows"), c = 1 + mc::choose(4, "width"), k = mc::choose(6, "pattern"); std::vector<std::vector<int>> x(n, std::vector<int>(c)); for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) x[i][j] = k == 0 ? 7 : k == 1 ? (i * (j + 1)) % 3 : k == 2 ? i : k == 3 ? n - i : k == 4 ? (i / 3 + j) % 4 : (i % 5) * (j == c - 1); rows_case(x);
}
MC_SCENARIO(empty_rows, 1) { int k = mc::choose(4, "call"); std::vector<std::vector<int>> e; if (k >= 2) e = {{}, {}}; MC_LOG(mc::str(e)); mc::state(k); MC_CHECK(mc::throws([&] { if (k % 2) common::sortrows<int>(e); else common::remove_duplicate_rows<int>(e); }), "empty row list accepted"); mc::step(); mc::validated(); }
MC_SCENARIO(large, 2) {
  int n = mc::size(15, 17, {40, 257}, "n"), m = mc::size(0, 0, {1, 16, 40, 300}, "m"), k = mc::choose(4, "pattern"); std::vector<int> a, b; for (int i = 0; i < n; ++i) a.push_back(k == 0 ? (i * 7) % n : k == 1 ? i % 5 : k == 2 ? n - i : 2 * i); for (int i = 0; i < m; ++i) b.push_back(k == 0 ? (i * 5) % (m + 3) : k == 1 ? i % 9 : k == 2 ? i : 3 * i); mc::state(a, b); MC_LOG(n << " and " << m << " items, pattern " << k);
  std::set<int> sb(b.begin(), b.end()), d; bool sub = true; for (int v : a) { sub &= sb.count(v) > 0; if (!sb.count(v)) d.insert(v); } std::vector<int> dv(d.begin(), d.end()); MC_CHECK(common::contains<int>(a, b) == sub, "contains"); MC_CHECK(common::contains<int>(std::vector<int>(a.begin(), a.begin() + n / 2), a), "a part is not contained in the whole"); MC_CHECK(common::difference<int>(a, b, true) == dv, "difference"); std::vector<int> w; for (int i = 0; i < std::max(n, m); ++i) { if (i < n) w.push_back(a[i]); if (i < m) w.push_back(b[i]); } MC_CHECK(common::merge<int>(a, b) == w, "merge");
  auto c = a; MC_CHECK(common::is_equal<int>(a, c), "is_equal of equal lists"); for (int at : {0, n / 2, n - 1}) { c = a; c[at] ^= 1; MC_CHECK(!common::is_equal<int>(a, c), "is_equal of lists that differ at " << at << " of " << n); } c = a; c.push_back(1); MC_CHECK(!common::is_equal<int>(a, c) && !common::is_equal<int>(c, a), "is_equal of lists of different length"); mc::step(9); mc::validated(9);
}
MC_SCENARIO(large_rows, 2) {
  int n = mc::size(25, 25, {40, 70, 150, 400}, "rows"), c = mc::size(1, 2, {5, 12}, "width"), k = mc::choose(6, "pattern"); std::vector<std::vector<int>> x(n, std::vector<int>(c)); for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) x[i][j] = k == 0 ? 7 : k == 1 ? (i * (j + 1)) % 3 : k == 2 ? i : k == 3 ? n - i : k == 4 ? (i / 3 + j) % 40 : (i % 35) * (j == c - 1); rows_case(x);
}
MC_SCENARIO(large_combos, 1) {
  int n = 11 + mc::choose(8, "n"), k = mc::choose(4, "k"); std::vector<int> x(n); for (int i = 0; i < n; ++i) x[i] = i * 3; int kk = k < 3 ? k + 1 : n - 1; auto c = common::combinations<int>(x, kk); std::vector<std::vector<int>> w; for (unsigned long s = 0; s < (1ul << n); ++s) if (__builtin_popcountl(s) == kk) { std::vector<int> t; for (int i = 0; i < n; ++i) if (s >> i & 1) t.push_back(x[i]); w.push_back(t); } std::sort(w.begin(), w.end()); mc::state(n, kk); MC_LOG(n << " choose " << kk); MC_CHECK(c == w, "combinations of " << n << " items taken " << kk << ": " << c.size() << " instead of " << w.size() << ", or in another order"); mc::step(); mc::validated();
}
namespace { template <class T> void typed(const char* name) {
  typedef std::numeric_limits<T> L; const T V[] = {0, 1, 2, L::max(), L::lowest(), T(L::max() / 2 + 1)}; auto n = [&](int m, const char* l) { std::vector<T> v(1 + mc::choose(m, l)); for (T& x : v) x = V[mc::choose(6, "item")]; return v; }; auto a = n(3, "len a"), b = n(2, "len b"); std::string h = std::string(name) + " " + mc::str(std::vector<double>(a.begin(), a.end())) + " " + mc::str(std::vector<double>(b.begin(), b.end())); MC_LOG(h); mc::state(std::string(name), h); auto a0 = a, b0 = b;
  bool sub = true; for (T v : a) sub &= std::find(b.begin(), b.end(), v) != b.end(); MC_CHECK(common::contains<T>(a, b) == sub, "contains " << h); MC_CHECK(common::is_equal<T>(a, b) == (a == b), "is_equal " << h); std::set<T> sb(b.begin(), b.end()), d; for (T v : a) if (!sb.count(v)) d.insert(v); MC_CHECK(common::difference<T>(a, b, true) == std::vector<T>(d.begin(), d.end()), "difference " << h);
  std::vector<T> w; for (std::size_t i = 0; i < a.size() || i < b.size(); ++i) { if (i < a.size()) w.push_back(a[i]); if (i < b.size()) w.push_back(b[i]); } MC_CHECK(common::merge<T>(a, b) == w, "merge " << h); auto c = common::combinations<T>(w, 2); std::vector<std::vector<T>> cw; for (std::size_t i = 0; i < w.size(); ++i) for (std::size_t j = i + 1; j < w.size(); ++j) cw.push_back({w[i], w[j]}); MC_CHECK(c == cw, "combinations " << h); mc::step(5);
  for (int rev = 0; rev < 2; ++rev) { auto s = common::sortrows<T>(cw, rev); auto e = cw; std::sort(e.begin(), e.end()); if (rev) std::reverse(e.begin(), e.end()); MC_CHECK(s == e, "sortrows(reverse=" << rev << ") of the pairs of " << h); } auto u = common::remove_duplicate_rows<T>(cw); std::vector<std::vector<T>> e; for (auto& q : cw) if (std::find(e.begin(), e.end(), q) == e.end()) e.push_back(q); MC_CHECK(u == e, "remove_duplicate_rows of the pairs of " << h); MC_CHECK(a == a0 && b == b0, "input modified"); mc::step(3); mc::validated(8); } }
MC_SCENARIO(element_types, 2) { switch (mc::choose(7, "type")) { case 0: return typed<std::size_t>("size_t"); case 1: return typed<unsigned>("unsigned"); case 2: return typed<int>("int"); case 3: return typed<long>("long"); case 4: return typed<short>("short"); case 5: return typed<unsigned char>("byte"); default: return typed<float>("float"); } }
