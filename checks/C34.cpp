// flags: -O1
//# hash tree: every sequence of 4 insert/count operations (thorough 5) over the 6 ordered pairs of 4 items (3 distinct singles, 4 triples) x fan-out 1-4 x leaf capacity 1-4; every subset of the 10 pairs and the 10 triples of 5 items with all transactions presented x 16 tree shapes x 3 insertion orders; long patterned runs up to 70 (12 items: 220) candidates; repeated extraction at every threshold, two trees used alternately
//! all itemsets of one tree have the same length, as Apriori uses them
//# two or three candidates counted 127..129, 255..257, 300, 65535..65537 and 70000 times, tree split before or after
#include "core.hpp"
using namespace openml;
namespace {
typedef std::vector<std::size_t> Set; typedef std::map<Set, std::size_t> Model;
struct Node { bool is_leaf; std::map<Set, std::size_t> bucket; std::map<std::size_t, std::shared_ptr<Node>> children; Node() : is_leaf(true) {} };
typedef tree::HashTree<Node, std::size_t> HT;
std::string show(const Model& m) { std::string s; for (auto& p : m) s += mc::str(p.first) + ":" + std::to_string(p.second) + " "; return s; }
void judge(HT& t, const Model& m, const std::string& h) {
  for (std::size_t sup : {0, 1, 2, 3, 7, 1}) { std::vector<std::size_t> cl = {99}; std::vector<Set> il = {{42}}; t.compute_frequency_itemsets(sup, cl, il); mc::step(); Model want, got; for (auto& p : m) if (p.second >= sup) want.insert(p); MC_CHECK(cl.size() == il.size(), h << ": " << cl.size() << " counts for " << il.size() << " itemsets"); for (std::size_t i = 0; i < il.size(); ++i) MC_CHECK(got.emplace(il[i], cl[i]).second, h << " support " << sup << ": " << mc::str(il[i]) << " reported twice"); MC_CHECK(got == want, h << " support " << sup << ": got " << show(got) << ", expected " << show(want)); mc::validated(); } }
std::vector<Set> subsets(int n, int k, const std::size_t* v) { std::vector<Set> r; for (int b = 0; b < 1 << n; ++b) if (__builtin_popcount(b) == k) { Set s; for (int i = 0; i < n; ++i) if (b >> i & 1) s.push_back(v[i]); r.push_back(s); } return r; }
const std::size_t ITEMS[3][12] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {3, 6, 9, 12, 15, 16, 18, 21, 24, 27, 30, 33}, {7, 2, 11, 1000000007, 5, 64, 1, 90, 13, 8, 21, 34}};
}
MC_SCENARIO(ops, 4) { int L = 1 + mc::choose(3, "length"), leaf = 1 + mc::choose(4, "leaf"), fan = 1 + mc::choose(4, "fan"), v = L == 2 ? mc::choose(2, "items") : 0; int D = mc::thorough() ? 5 : 4; std::vector<Set> c = subsets(4, L, ITEMS[v * 2]); HT t(leaf, fan); Model m; std::string h = "hash tree leaf=" + std::to_string(leaf) + " fan-out=" + std::to_string(fan) + ":"; for (int i = 0; i < D; ++i) { int o = mc::choose(2 * c.size(), "op"); const Set& s = c[o / 2]; if (o & 1) { t.add_support(s); auto it = m.find(s); if (it != m.end()) ++it->second; h += " count" + mc::str(s); } else { t.build_tree(s); m.emplace(s, 0); h += " insert" + mc::str(s); } mc::step(); std::string k = h; mc::state(L, leaf, fan, v, i, show(m)); } MC_LOG(h); judge(t, m, h); }
MC_SCENARIO(sets, 4) { int L = 2 + mc::choose(2, "length"), leaf = mc::choose(4, "leaf"), fan = mc::choose(4, "fan"), ord = mc::choose(3, "order"); static const int V[] = {1, 2, 3, 10}; std::vector<Set> c = subsets(5, L, ITEMS[ord]); int mask = mc::choose(1 << c.size(), "candidates"); HT t(V[leaf], V[fan]); Model m; std::vector<Set> in; for (std::size_t i = 0; i < c.size(); ++i) if (mask >> i & 1) in.push_back(c[i]); if (ord == 1) std::reverse(in.begin(), in.end()); if (ord == 2) for (std::size_t i = 0; i + 1 < in.size(); i += 2) std::swap(in[i], in[in.size() - 1 - i / 2]); for (auto& s : in) { t.build_tree(s); m.emplace(s, 0); mc::step(); } std::string h = "hash tree leaf=" + std::to_string(V[leaf]) + " fan-out=" + std::to_string(V[fan]) + " with " + show(m); mc::state(L, leaf, fan, ord, mask); MC_LOG(h); for (int r = 0; r < 3; ++r) { for (std::size_t i = 0; i < c.size(); ++i) if (r == 0 || (i + r) % 2 == 0 || mask % 7 == (int)i) { t.add_support(c[i]); auto it = m.find(c[i]); if (it != m.end()) ++it->second; mc::step(); } judge(t, m, h + " after counting pass " + std::to_string(r)); } }
MC_SCENARIO(big, 3) { int v = mc::choose(3, "items"), L = 1 + mc::choose(4, "length"), leaf = mc::choose(5, "leaf"), fan = mc::choose(5, "fan"), st = 1 + mc::choose(3, "stride"); static const int V[] = {1, 2, 3, 7, 200}; int NI = mc::choose(2, "item count") ? 12 : 8; if (NI == 12 && L > 3) mc::prune(); auto c = subsets(NI, L, ITEMS[v]); mc::Dirty<HT> def(0xA5); HT sized(V[leaf], V[fan]), other(2, 2); bool d = leaf == 2 && fan == 2; HT& t = d ? *def : sized; Model m, om; std::string h = "hash tree leaf=" + std::to_string(V[leaf]) + " fan-out=" + std::to_string(V[fan]) + " length " + std::to_string(L) + " items " + std::to_string(v) + " stride " + std::to_string(st); mc::state(v, L, leaf, fan, st); for (std::size_t i = 0; i < c.size(); ++i) { const Set& s = c[(i * (2 * st + 1) + 1) % c.size()]; if (i % st == 0) { t.build_tree(s); m.emplace(s, 0); } other.build_tree(s); om.emplace(s, 0); const Set& q = c[(i * i + st) % c.size()]; t.add_support(q); if (m.count(q)) ++m[q]; if (i % 3 == 0) { other.add_support(s); ++om[s]; } mc::step(4); if (i % (NI == 8 ? 16 : 80) == 15) judge(t, m, h); } judge(t, m, h); judge(other, om, "second " + h); judge(t, m, h); }
MC_SCENARIO(many_counts, 2) { static const int N[] = {127, 128, 129, 255, 256, 257, 300, 65535, 65536, 65537, 70000}; int n = mc::pick(N, "times"), L = 1 + mc::choose(3, "length"), leaf = 1 + mc::choose(2, "leaf"), when = mc::choose(3, "when"); auto c = subsets(5, L, ITEMS[1]); HT t(leaf, 3); Model m; auto put = [&](const Set& s) { t.build_tree(s); m.emplace(s, 0); }; auto count = [&](const Set& s, int k) { for (int i = 0; i < k; ++i) t.add_support(s); auto it = m.find(s); if (it != m.end()) it->second += k; mc::step(); }; put(c[0]); if (when == 0) { put(c[1]); put(c[2]); } count(c[0], n / 2); if (when == 1) { put(c[1]); put(c[2]); put(c[3]); } count(c[0], n - n / 2); count(c[3], 5); if (when == 2) put(c[1]); count(c[1], n - 1); mc::state(n, L, leaf, when); std::string h = "hash tree leaf=" + std::to_string(leaf) + " with counts " + show(m); MC_LOG(h); judge(t, m, h); for (std::size_t sup : {(std::size_t)n, (std::size_t)n + 1, (std::size_t)n - 1}) { std::vector<std::size_t> cl; std::vector<Set> il; t.compute_frequency_itemsets(sup, cl, il); Model want, got; for (auto& p : m) if (p.second >= sup) want.insert(p); for (std::size_t i = 0; i < il.size(); ++i) got.emplace(il[i], cl[i]); MC_CHECK(got == want, h << " support " << sup << ": got " << show(got)); mc::step(); mc::validated(); } }
