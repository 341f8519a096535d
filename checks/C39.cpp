// flags: -O1
// debug: off
//# 31 configurations of all 17 estimators: every history of 3 (thorough 4) calls out of fit on four data sets of different shapes, predict, read everything, followed by a fit on each data set, compared with a fresh object; every ordered pair of configurations fitted and used alternately on every pair of data sets
//# every history of fit, (predict or read,) fit and a last fit over six data sets of one shape (other values, other targets, one value changed, rows reversed, only the last row changed) and a 40-row one; a copy of every copyable fitted object on every ordered pair of eight data sets: the original refitted and destroyed, the copy refitted, originals and copies assigned
//! the random draws of a fit are a numbered stream restarted before the fits that are compared; apriori's answers are its rules
#include "models.hpp"
using namespace openml; using namespace models;
namespace {
bool same(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!mc::near(a[i], b[i], 1e-11) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
std::vector<double> answers(Model& m, int k) { std::vector<double> s = m.state(); put(s, m.rows(queries(k))); put(s, m.rows(data_set(k).X)); mc::step(3); return s; }
struct Fresh { bool ok; std::vector<double> a; };
const Fresh& fresh(int v, int k, int st) { static std::map<int, Fresh> c; auto in = c.emplace((v * 16 + k) * 16 + st, Fresh()); Fresh& f = in.first->second; if (in.second) { S n, w; auto m = make(v, n); auto keep = mc::env(); mc::env_stream(st + 1); f.ok = fitted(*m, data_set(k), w); if (f.ok) f.a = answers(*m, k); mc::env() = keep; } return f; }
}
MC_SCENARIO(history, 2) { int v = mc::choose(COUNT, "model"); S name, w; auto m = make(v, name); S h = name + ":"; int D = mc::thorough() ? 4 : 3, cur = -1, st = 0; for (int t = 0; t <= D; ++t) { int c = t == D ? mc::choose(4, "last fit") : mc::choose(6, "call"); mc::state(v, t, cur, c); if (c < 4) { mc::env_stream(t + c + 1); st = t + c; h += " fit" + std::to_string(c); bool ok = fitted(*m, data_set(c), w); cur = ok ? c : -1; mc::step(); if (t == D) { const Fresh& f = fresh(v, c, st); MC_LOG(h); MC_CHECK(ok == f.ok, h << ": a fresh object is " << (f.ok ? "fitted" : "rejected") << ", this one is " << (ok ? "fitted" : "rejected: " + w)); if (ok) { auto a = answers(*m, c); MC_CHECK(same(a, f.a), h << ": answers " << mc::str(a) << ", a fresh object answers " << mc::str(f.a)); auto b = answers(*m, c); MC_CHECK(same(a, b), h << ": asked again, answers " << mc::str(b) << " instead of " << mc::str(a)); mc::validated(2); } } } else if (cur < 0) mc::prune(); else if (c == 4) { h += " predict"; Mat Q = queries(cur); const Mat Q0 = Q; m->rows(Q); m->rows(Q.row(3)); mc::step(2); MC_CHECK(Q == Q0, h << " modified its data"); } else { h += " read"; m->state(); mc::step(); } } }
MC_SCENARIO(pairs, 2) { int v = mc::choose(COUNT, "first"), u = mc::choose(COUNT, "second"), j = mc::choose(4, "first data"), k = mc::choose(4, "second data"); S a, b, w; auto m = make(v, a), o = make(u, b); mc::state(v, u, j, k); S h = a + " on data " + std::to_string(j) + " beside " + b + " on data " + std::to_string(k); MC_LOG(h); mc::env_stream(1); bool p = fitted(*m, data_set(j), w); mc::env_stream(1); bool q = fitted(*o, data_set(k), w); mc::step(2); MC_CHECK(p == fresh(v, j, 0).ok && q == fresh(u, k, 0).ok, h << ": " << w); if (q) { auto x = answers(*o, k); MC_CHECK(same(x, fresh(u, k, 0).a), h << ": the second answers " << mc::str(x) << ", alone " << mc::str(fresh(u, k, 0).a)); } if (p) { auto x = answers(*m, j); MC_CHECK(same(x, fresh(v, j, 0).a), h << ": the first answers " << mc::str(x) << ", alone " << mc::str(fresh(v, j, 0).a)); } if (q && p) { auto x = answers(*o, k); MC_CHECK(same(x, fresh(u, k, 0).a), h << ": the second then answers " << mc::str(x)); o.reset(); auto z = answers(*m, j); MC_CHECK(same(z, fresh(v, j, 0).a), h << ": with the second gone, the first answers " << mc::str(z)); } mc::validated(4); }
MC_SCENARIO(same_shape, 2) { static const int K[] = {0, 4, 5, 6, 7, 8, 9}; int v = mc::choose(COUNT, "model"); S name, w; auto m = make(v, name); S h = name + ":"; int D = mc::thorough() ? 3 : 2; for (int t = 0; t < D; ++t) { int c = K[mc::choose(7, "data")]; if (c == 9 && (v == 21 || v == 9)) mc::prune(); mc::state(v, t, c); h += " fit" + std::to_string(c); int st = t + c % 5; mc::env_stream(st + 1); bool ok = fitted(*m, data_set(c), w); mc::step(); if (t == D - 1) { const Fresh& f = fresh(v, c, st); MC_LOG(h); MC_CHECK(ok == f.ok, h << ": a fresh object is " << (f.ok ? "fitted" : "rejected") << ", this one is " << (ok ? "fitted" : "rejected: " + w)); if (ok) { auto a = answers(*m, c); MC_CHECK(same(a, f.a), h << ": answers " << mc::str(a) << ", a fresh object answers " << mc::str(f.a)); } mc::validated(); } else if (ok && mc::choose(2, "use")) { h += " predict"; m->rows(queries(c)); m->state(); mc::step(2); } } }
MC_SCENARIO(copies, 2) { static const int K[] = {0, 1, 2, 3, 4, 6, 7, 9}; int v = mc::choose(COUNT, "model"), j = K[mc::choose(8, "data")], k = K[mc::choose(8, "other data")], how = mc::choose(2, "how"); if ((j == 9 || k == 9) && (v == 21 || v == 9)) mc::prune(); S name, w; auto m = make(v, name); mc::state(v, j, k, how); S h = "copy of " + name + " fitted on data " + std::to_string(j) + ", then " + std::to_string(k); MC_LOG(h); if (!m->cloner) mc::prune(); mc::env_stream(1); if (!fitted(*m, data_set(j), w) || !fresh(v, k, 0).ok) mc::prune(); auto c = m->clone(); mc::step(2); auto is = [&](Model& x, int d, const char* who) { auto a = answers(x, d); MC_CHECK(same(a, fresh(v, d, 0).a), h << ": " << who << " answers " << mc::str(a) << ", a fresh object on data " << d << " answers " << mc::str(fresh(v, d, 0).a)); mc::validated(); };
  if (how == 0) { is(*c, j, "the copy"); mc::env_stream(1); fitted(*m, data_set(k), w); is(*c, j, "the copy of the refitted object"); is(*m, k, "the refitted object"); m.reset(); is(*c, j, "the copy that outlives its original"); mc::env_stream(1); fitted(*c, data_set(k), w); is(*c, k, "the refitted copy"); } else { mc::env_stream(1); fitted(*c, data_set(k), w); is(*m, j, "the original of the refitted copy"); auto e = c->clone(); c.reset(); is(*m, j, "the original of the destroyed copy"); is(*e, k, "the copy of the copy"); } }
