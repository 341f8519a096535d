// flags: -O1
// debug: off
//# 30 configurations of all predicting estimators x four training sets x 3 draw streams: every batch of 1-3 rows (thorough 4) out of six query rows (training rows, inside, outside, repeated rows), the training set, its reverse and batches of 17 and 40 rows
//# two further training sets (other targets; 40 rows), batches of 100 and 130 rows
//! queries avoid exact ties; real answers may differ in the last digits between batch sizes
//# batches in which consecutive rows share all coordinates but one, or only one
//# the batch without any row, for every configuration and training set: no answers, and the next batch is answered as before
#include "models.hpp"
using namespace openml; using namespace models;
namespace {
void rowwise(Model& m, const Mat& B, const std::map<std::string, Mat>& one, const S& h) { const Mat B0 = B; Mat r = m.rows(B); mc::step(); MC_CHECK(B == B0, h << ": the batch was modified"); MC_CHECK(r.rows() == B.rows(), h << ": " << r.rows() << " answers for " << B.rows() << " samples"); for (long i = 0; i < B.rows(); ++i) { const Mat& o = one.at(mc::str(B.row(i))); for (long j = 0; j < r.cols(); ++j) MC_CHECK(r.cols() == o.cols() && (mc::near(r(i, j), o(0, j), 1e-9) || r(i, j) == o(0, j)), h << ": row " << i << " of " << mc::str(B) << " gets " << mc::str(r.row(i)) << ", alone " << mc::str(o)); } mc::validated(B.rows()); }
}
MC_SCENARIO(batches, 3) { int v = mc::choose(COUNT, "model"), k = mc::choose(6, "data"), st = mc::choose(3, "stream"); if (k == 5 && (v == 21 || v == 9)) mc::prune(); k = k == 4 ? 5 : k == 5 ? 9 : k; static std::map<int, std::pair<std::shared_ptr<Model>, std::map<std::string, Mat>>> cache; S name, w; int key = (v * 16 + k) * 3 + st; Data d = data_set(k); Mat Q = queries(k); auto it = cache.find(key); auto keep = mc::env(); if (it == cache.end()) { std::shared_ptr<Model> m(make(v, name).release()); mc::env_stream(st + 1); if (!m->per_row() || !fitted(*m, d, w)) m.reset(); it = cache.emplace(key, std::make_pair(m, std::map<std::string, Mat>())).first; if (m) for (const Mat& A : {Q, d.X}) for (long i = 0; i < A.rows(); ++i) it->second.second[mc::str(A.row(i))] = m->rows(A.row(i)); mc::step(Q.rows() + d.X.rows()); } mc::env() = keep; Model* m = it->second.first.get(); if (!m) mc::prune(); { S n2; make(v, name); } S h = name + " trained on data " + std::to_string(k); auto& one = it->second.second;
  int len = mc::choose(mc::thorough() ? 6 : 5, "batch"); Mat B; if (len == 0) { B.resize(d.X.rows(), d.X.cols()); int r = mc::choose(3, "order"); for (long i = 0; i < B.rows(); ++i) B.row(i) = d.X.row(r == 0 ? i : r == 1 ? B.rows() - 1 - i : (i * 5 + 1) % B.rows()); } else if (len == 4) { static const int LN[] = {17, 40, 100, 130}; int s = mc::choose(16, "long"), n = LN[s % 4]; B.resize(n, Q.cols()); for (int i = 0; i < n; ++i) B.row(i) = Q.row((i * (s + 1) + i / 3) % 6); } else { int L = len == 5 ? 4 : len; B.resize(L, Q.cols()); for (int i = 0; i < L; ++i) B.row(i) = Q.row(mc::choose(6, "row")); } mc::state(v, k, st, B); MC_LOG(h << " batch " << mc::str(B)); for (auto& o : one) MC_CHECK(o.second.rows() == 1, h << ": " << o.second.rows() << " answers for one sample"); rowwise(*m, B, one, h); }
MC_SCENARIO(shared_coordinates, 2) { int v = mc::choose(COUNT, "model"), k = mc::choose(4, "data"), st = mc::choose(2, "stream"); static const int DS[] = {0, 2, 3, 9}; k = DS[k]; if (k == 9 && (v == 21 || v == 9)) mc::prune(); static std::map<int, std::pair<std::shared_ptr<Model>, std::map<std::string, Mat>>> cache; S name, w; int key = (v * 16 + k) * 3 + st; Data d = data_set(k); Mat Q = queries(k); long f = Q.cols(); auto it = cache.find(key); auto keep = mc::env(); if (it == cache.end()) { std::shared_ptr<Model> m(make(v, name).release()); mc::env_stream(st + 1); if (!m->per_row() || !fitted(*m, d, w)) m.reset(); it = cache.emplace(key, std::make_pair(m, std::map<std::string, Mat>())).first; } mc::env() = keep; Model* m = it->second.first.get(); if (!m) mc::prune(); { S n2; make(v, n2); name = n2; }
  int a = mc::choose(6, "row"), b = mc::choose(6, "other"), j = mc::choose((int)f, "coordinate"), how = mc::choose(2, "share"); Mat B(4, f); B.row(0) = Q.row(a); B.row(1) = how ? Q.row(a) : Q.row(b); B(1, j) = how ? Q(b, j) : Q(a, j); B.row(2) = Q.row(b); B.row(3) = B.row(1); auto& one = it->second.second; for (long i = 0; i < 4; ++i) { std::string s = mc::str(B.row(i)); if (!one.count(s)) one[s] = m->rows(B.row(i)); } mc::step(4); mc::state(v, k, st, B); S h = name + " trained on data " + std::to_string(k); MC_LOG(h << " batch " << mc::str(B)); rowwise(*m, B, one, h); }
MC_SCENARIO(no_rows, 2) { int v = mc::choose(COUNT, "model"), k = mc::choose(4, "data"), st = mc::choose(2, "stream"); static const int DS[] = {0, 2, 3, 9}; k = DS[k]; if (k == 9 && (v == 21 || v == 9)) mc::prune(); S name, w; Data d = data_set(k); Mat Q = queries(k); std::unique_ptr<Model> m(make(v, name).release()); mc::env_stream(st + 1); if (!m->per_row() || !fitted(*m, d, w)) mc::prune(); Mat before = m->rows(Q); Mat E(0, Q.cols()); mc::state(v, k, st); S h = name + " trained on data " + std::to_string(k); MC_LOG(h); Mat r = m->rows(E); mc::step(3); MC_CHECK(r.rows() == 0, h << ": " << r.rows() << " answers for no samples"); Mat after = m->rows(Q); MC_CHECK(after.rows() == before.rows() && after.cols() == before.cols(), h << ": shape of the answers changed after a batch without rows"); for (long i = 0; i < before.size(); ++i) MC_CHECK(mc::near(before(i), after(i), 1e-9) || before(i) == after(i), h << ": answers changed after a batch without rows"); mc::validated(1); }
