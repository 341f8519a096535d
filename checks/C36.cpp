// flags: -O1
//# transaction encoder: every list of 0-3 transactions of 0-3 items (with order and repetitions) over 3 item values incl. 0, 4 transactions of 0-2 items; patterned lists up to 30 transactions over 12 items; item types std::size_t, int (negative items) and double (also values equal up to the ninth digit); an encoder used for several lists
//# lists of 255..257, 300 and 66000 transactions over 1, 12, 300 items and transactions of 300 items
#include "core.hpp"
using namespace openml;
namespace {
template <class T> void judge(const preprocessing::TransactionEncoder<T>& e, const std::vector<std::vector<T>>& X) {
  const auto X0 = X; auto S = e.fit_transform(X); mc::step(); std::string h = "encoding " + mc::str(X); MC_LOG(h); MC_CHECK(X == X0, h << " modified the list"); std::set<T> it; long nz = 0; for (auto& t : X) { it.insert(t.begin(), t.end()); nz += std::set<T>(t.begin(), t.end()).size(); } std::vector<T> cols(it.begin(), it.end());
  MC_CHECK(S.rows() == (long)X.size() && S.cols() == (long)cols.size(), h << ": " << S.rows() << "x" << S.cols() << " for " << X.size() << " transactions of " << cols.size() << " distinct items"); std::map<std::pair<long, long>, T> got; for (long r = 0; r < S.outerSize(); ++r) for (typename Eigen::SparseMatrix<T, Eigen::RowMajor>::InnerIterator i(S, r); i; ++i) { MC_CHECK(i.col() >= 0 && i.col() < (long)cols.size() && got.emplace(std::make_pair((long)i.row(), (long)i.col()), i.value()).second, h << ": entry " << i.row() << "," << i.col()); }
  MC_CHECK((long)got.size() == nz && S.nonZeros() == nz, h << ": " << got.size() << " entries, " << S.nonZeros() << " stored, expected " << nz); for (long r = 0; r < (long)X.size(); ++r) for (long c = 0; c < (long)cols.size(); ++c) { bool in = std::find(X[r].begin(), X[r].end(), cols[c]) != X[r].end(); auto p = got.find({r, c}); MC_CHECK((p != got.end()) == in, h << ": transaction " << r << (in ? " contains " : " does not contain ") << cols[c] << ", entry " << (in ? "missing" : "present")); if (in) MC_CHECK(p->second == cols[c] && S.coeff(r, c) == cols[c], h << ": entry " << r << "," << c << " is " << p->second << " for item " << cols[c]); } mc::validated(); }
template <class T> std::vector<T> word(int w, const T* v) { std::vector<T> r; int len = 0, p = 1; while (w >= p) { w -= p; p *= 3; ++len; } for (int i = 0; i < len; ++i, w /= 3) r.push_back(v[w % 3]); return r; }
const std::size_t US[] = {5, 0, 2}; const int UI[] = {-4, 0, 7}; const double UD[] = {2.5, -1, 0};
template <class T> void lists(const T* v) { int n = mc::choose(5, "transactions"), W = n == 4 ? 13 : n == 3 ? 40 : 40; std::vector<std::vector<T>> X; for (int i = 0; i < n; ++i) X.push_back(word(mc::choose(W, "transaction"), v)); mc::state(X); preprocessing::TransactionEncoder<T> e; judge(e, X); }
}
MC_SCENARIO(list_size_t, 1) { lists(US); }
MC_SCENARIO(list_int, 1) { lists(UI); }
MC_SCENARIO(list_double, 1) { lists(UD); }
MC_SCENARIO(list_fine, 1) { static const double F[] = {1, 1 + 1e-9, 0.25}; lists(F); }
MC_SCENARIO(list_close, 1) { static const double F[] = {16777217, 16777216, -0.5}; lists(F); }
MC_SCENARIO(patterns, 2) { int n = mc::size(5, 30, {70, 140}, "n"), k = mc::size(1, 12, {30, 70}, "items"), d = mc::choose(4, "data"); std::vector<std::vector<std::size_t>> X, Y; for (int i = 0; i < n; ++i) { std::vector<std::size_t> t; for (int j = 0; j < (i * (d + 1) + d) % (k + 2); ++j) t.push_back(((i * j * 7 + j + d) % k) * 3 + 1); X.push_back(t); } Y = {{9, 1}, {}, {4, 4, 4}}; mc::state(X); preprocessing::TransactionEncoder<std::size_t> e; judge(e, X); judge(e, Y); judge(e, X); }
MC_SCENARIO(large, 2) { static const int N[] = {255, 256, 257, 300, 66000}, K[] = {1, 12, 300}; int n = mc::pick(N, "n"), k = mc::pick(K, "items"), d = mc::choose(3, "data"); if (n > 300 && (k == 300 || d == 2)) mc::prune(); std::vector<std::vector<std::size_t>> X; for (int i = 0; i < n; ++i) { std::vector<std::size_t> t; int len = d == 0 ? 1 : d == 1 ? i % 3 : i == n / 2 ? k : i % (k < 7 ? k + 1 : 7); for (int j = 0; j < len; ++j) t.push_back(((long)(i + 1) * 7 + (long)j * 11) % k * 300 + 1); X.push_back(t); } mc::state(n, k, d); preprocessing::TransactionEncoder<std::size_t> e; judge(e, X); }
