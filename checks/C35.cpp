// flags: -O1
// debug: off
//# apriori: every list of 1-3 transactions over 4 items x 6 supports x 4 confidences, 4 transactions over 4 items and 5 over 3 items x 3 threshold pairs, items written ascending, descending, rotated and repeated; patterned lists of 6-30, 70, 140 transactions over 5-10 items; the default object; refits on other lists
//! the rules and their printed list are observable, the candidates are not; a list without any frequent item may be rejected
//# lists of 255..257, 300, 600 and 65600 transactions of 2-4 items (nearly all, half, few sharing them); 40 items of which pairs and triples are frequent
//# thresholds at and 1e-8 to either side of every support share k/n and every confidence p/q that lists of 3, 7, 10, 13 transactions can have
#include "core.hpp"
#include "methods/rule_model/apriori.hpp"
using namespace openml;
namespace {
typedef rule_model::Apriori<std::size_t> AP; typedef std::vector<std::size_t> Set; typedef std::vector<Set> List; typedef std::map<std::pair<Set, Set>, double> Rules;
const std::size_t ITEM[10] = {7, 0, 12, 3, 40, 1, 1000000007, 5, 2, 90};
std::string show(const Rules& r) { std::string s; for (auto& p : r) s += mc::str(p.first.first) + "=>" + mc::str(p.first.second) + " " + mc::num(p.second) + "; "; return s; }
Set items(unsigned b, int n) { Set s; for (int i = 0; i < n; ++i) if (b >> i & 1) s.push_back(ITEM[i]); std::sort(s.begin(), s.end()); return s; }
Rules reference(const std::vector<unsigned>& T, int n, double ms, double mcf, bool& any) { std::vector<long> cnt(1u << n); for (unsigned b = 1; b < 1u << n; ++b) for (unsigned t : T) cnt[b] += (t & b) == b; double lim = T.size() * ms - 1e-9; Rules r; any = false; for (unsigned b = 1; b < 1u << n; ++b) if (cnt[b] >= lim && cnt[b] > 0) { any = true; for (unsigned a = (b - 1) & b; a; a = (a - 1) & b) { double c = (double)cnt[b] / cnt[a]; if (c >= mcf - 1e-12) r[{items(a, n), items(b & ~a, n)}] = c; } } return r; }
// the printed list: one line per rule, the items before and after the arrow and the confidence
void printed(AP& m, const Rules& r, const std::string& h) { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); m.print_rules(); std::cout.rdbuf(old); mc::step(); std::istringstream in(o.str()); std::string l; std::size_t n = 0; Rules left = r; auto num = [](std::string t) { for (char& c : t) if (!isdigit((unsigned char)c)) c = ' '; std::istringstream i(t); Set s; std::size_t v; while (i >> v) s.push_back(v); std::sort(s.begin(), s.end()); return s; };
  while (std::getline(in, l)) { std::size_t a = l.find("==>"), b = l.find("confidence"); if (a == std::string::npos || b == std::string::npos || b < a) continue; ++n; std::string c = l.substr(b + 10); std::size_t k = c.find_first_of("0123456789."); double v = k == std::string::npos ? -1 : std::atof(c.c_str() + k); auto it = left.find({num(l.substr(0, a)), num(l.substr(a + 3, b - a - 3))}); MC_CHECK(it != left.end() && std::fabs(it->second - v) <= 1e-5, h << ": printed rule " << l << " is not among " << show(r)); left.erase(it); } MC_CHECK(left.empty() && n == r.size(), h << ": printed " << n << " of " << r.size() << " rules"); mc::validated(); }
void judge(AP& m, const std::vector<unsigned>& T, int n, int form, double ms, double mcf, const std::string& who) {
  List X; for (std::size_t i = 0; i < T.size(); ++i) { Set s; for (int j = 0; j < n; ++j) if (T[i] >> j & 1) s.push_back(ITEM[j]); int f = form == 3 ? (int)i % 3 : form; if (f == 1) std::sort(s.begin(), s.end(), std::greater<std::size_t>()); if (f == 2 && !s.empty()) { std::rotate(s.begin(), s.begin() + i % s.size(), s.end()); s.push_back(s[i % s.size()]); s.insert(s.begin(), s.back()); } X.push_back(s); }
  std::string h = who + " support " + mc::num(ms) + " confidence " + mc::num(mcf) + " on " + mc::str(X); MC_LOG(h); bool any; Rules want = reference(T, n, ms, mcf, any); const List X0 = X; bool threw = false; try { m.fit_transform(X); } catch (const std::runtime_error&) { threw = true; } mc::step(); MC_CHECK(X == X0, h << " modified the transactions"); MC_CHECK(!threw || !any, h << ": rejected, though there are frequent itemsets; rules expected " << show(want)); Rules got; for (auto r : m.get_rules()) { Set a = std::get<0>(r), b = std::get<1>(r); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_CHECK(got.emplace(std::make_pair(a, b), std::get<2>(r)).second, h << ": rule " << mc::str(a) << "=>" << mc::str(b) << " reported twice"); } bool ok = got.size() == want.size(); for (auto& p : want) ok = ok && got.count(p.first) && mc::near(got[p.first], p.second, 1e-12); MC_CHECK(ok, h << ": rules " << show(got) << " expected " << show(want)); mc::validated(); if (got.size() <= 12) printed(m, got, h); }
const double MS[] = {0.34, 0.5, 0.3, 0.67, 0.75, 1.0}, MC[] = {0.0, 0.5, 0.7, 1.0};
}
MC_SCENARIO(lists, 3) { int n = 1 + mc::choose(3, "transactions"), form = mc::choose(4, "form"), s = mc::choose(6, "support"), c = mc::choose(4, "confidence"); std::vector<unsigned> T; for (int i = 0; i < n; ++i) T.push_back(mc::choose(16, "items")); mc::state(T, form, s, c); AP m(MS[s], MC[c]); judge(m, T, 4, form, MS[s], MC[c], "apriori"); }
MC_SCENARIO(lists4, 3) { int k = mc::choose(2, "size"), th = mc::choose(3, "thresholds"); static const double A[] = {0.5, 0.25, 0.6}, B[] = {0.6, 0.5, 0.0}; std::vector<unsigned> T; for (int i = 0; i < 4 + k; ++i) T.push_back(mc::choose(k ? 8 : 16, "items")); if (k == 0 && !mc::thorough()) { if (T[3] < T[2]) mc::prune(); } unsigned f = 0; for (unsigned t : T) f = f * 5 + t; mc::state(T, th); AP m(A[th], B[th]); judge(m, T, k ? 3 : 4, f % 4, A[th], B[th], "apriori"); }
MC_SCENARIO(patterns, 3) { int n = mc::size(6, 30, {70, 140}, "transactions"), it = mc::size(5, 9, {10}, "items"), d = mc::choose(5, "data"), th = mc::choose(4, "thresholds"); static const double A[] = {0.4, 0.2, 0.1, 0.5}, B[] = {0.6, 0.8, 0.5, 0.3}; std::vector<unsigned> T; for (int i = 0; i < n; ++i) { unsigned t = d == 0 ? (i * 2654435761u) >> 7 : d == 1 ? (i % 3 ? 0x1Fu : 0x6u) | (1u << i % it) : d == 2 ? ~(1u << (i % it)) : d == 3 ? ((i * 7) ^ (i << 2)) | (i & 1) : (1u << (i % it)) | (i % 4 ? 3u : 0u); t &= (1u << it) - 1; T.push_back(t); } mc::state(T, th); AP m(A[th], B[th]); judge(m, T, it, d == 2 ? 0 : (n + th) % 4, A[th], B[th], "apriori"); }
MC_SCENARIO(history, 3) { int o = mc::choose(2, "object"); mc::Dirty<AP> d(0xA5); AP e(0.4, 0.7), x(0.2, 0.1); double ms = o ? 0.4 : 0.03, cf = o ? 0.7 : 0.5; AP& m = o ? e : *d; static const std::vector<unsigned> L[] = {{7, 3, 5, 1, 6}, {15, 14, 8, 12, 15, 3}, {1, 2, 4}, {3, 3, 0, 11, 11, 9, 1}, {0, 0}}; for (int t = 0; t < 3; ++t) { int k = mc::choose(5, "list"); mc::state(o, t, k); judge(m, L[k], 4, t % 4, ms, cf, "refitted apriori"); judge(x, L[(k + 1) % 4], 4, 1, 0.2, 0.1, "other apriori"); } }
MC_SCENARIO(many_transactions, 2) { static const int N[] = {255, 256, 257, 300, 600, 65600}; int n = mc::pick(N, "n"), d = mc::choose(3, "data"), th = mc::choose(3, "thresholds"); static const double A[] = {0.1, 0.45, 0.9}, B[] = {0.3, 0.6, 0.0}; if (n > 600 && (th || d == 1)) mc::prune(); std::vector<unsigned> T; for (int i = 0; i < n; ++i) T.push_back(d == 0 ? (i * 2 < n ? 3 : 1) : d == 1 ? 7 | (i % 5 ? 0 : 8) : (i % 3 ? 5 : 2) | (i % 7 ? 0 : 8)); mc::state(n, d, th); AP m(A[th], B[th]); judge(m, T, 4, n > 600 ? 0 : th, A[th], B[th], "apriori"); }
MC_SCENARIO(near_thresholds, 3) {
  static const int N[] = {3, 7, 10, 13}; static const double E[] = {0, 1e-8, -1e-8}; int n = mc::pick(N, "n"), d = mc::choose(3, "data"), k = 1 + mc::choose(n, "support"), q = 1 + mc::choose(n, "left"), p = 1 + mc::choose(q, "union"); double ms = (double)k / n + mc::pick(E, "support shift"), cf = (double)p / q + mc::pick(E, "confidence shift"); if (!mc::thorough() && k > 4) mc::prune();
  std::vector<unsigned> T; for (int i = 0; i < n; ++i) T.push_back(d == 0 ? (i < q ? 1 : 0) | (i < p ? 2 : 0) | (i % 2 ? 4 : 0) : d == 1 ? (i < q ? 3 : 4) | (i < p ? 4 : 0) | (i % 3 ? 0 : 8) : (i + p < n ? 1 : 3) | (i < q ? 4 : 0) | 8); mc::state(n, d, k, q, p, ms, cf); AP m(ms, cf); judge(m, T, 4, (p + q) % 4, ms, cf, "apriori");
}
