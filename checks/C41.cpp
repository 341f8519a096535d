// flags: -O1 -finstrument-functions -finstrument-functions-exclude-file-list=eigen3,/c++/,/mc/,/checks/,checks/,mc.hpp
// debug: off
//# two threads, each creating, fitting and reading one of 31 configurations of all 17 estimators or running a programme of 30 core functions: every ordered pair, one preemption at every scheduling point of the first thread (the second runs to its end there); the same configuration twice on every ordered pair of four data sets
//# two preemptions for the same configuration twice: the first thread stopped at every scheduling point, the second after 1, 2, 3, 5, 8, 13... of its points (every point where the product is below 40000; thorough: 400000), then both run to their end
//# one fitted object answering two threads at once, with one and two preemptions at every pair of scheduling points (up to 150 x 150; the second in Fibonacci steps beyond)
//! scheduling points are the entries to and exits from library functions and the allocations; the two are real threads of which one runs at a time, so what is explored are sequentially consistent interleavings; std::rand and the random devices have one stream per thread
#include "models.hpp"
#include "core/tree/hash_tree.hpp"
#include "core/tree/kd_tree.hpp"
#include "core/preprocessing/transaction_encoder.hpp"
#include "fibers.hpp"
using namespace openml; using namespace models;
namespace {
typedef std::vector<double> Out;
bool same(const Out& a, const Out& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i] && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
const Data& dat(int k) { static std::map<int, Data> c; auto i = c.find(k); if (i == c.end()) i = c.emplace(k, data_set(k)).first; return i->second; }
const Mat& query(int k) { static std::map<int, Mat> c; auto i = c.find(k); if (i == c.end()) i = c.emplace(k, queries(k)).first; return i->second; }
template <class A> void puti(Out& o, const A& m) { put(o, m.template cast<double>()); }
void linalg(Out& o, const Mat& X) { Mat U, Vt, A = X.transpose() * X; Vec s; std::tie(U, s, Vt) = math::exact_svd<Mat, Vec>(X, false); put(o, U); put(o, Vt); put(o, s); std::tie(U, s, Vt) = math::randomized_svd<Mat, Vec, IVec>(X, 1, 0, 2, "QR", true); put(o, U * s.asDiagonal() * Vt); put(o, math::pinv<Mat, Vec>(A, 1e-9)); put(o, Mat::Constant(1, 1, math::logdet<Mat>(Mat(A + Mat::Identity(A.rows(), A.cols()))))); put(o, math::cov<Mat>(X)); put(o, math::var<Mat>(X, 0)); put(o, math::median<Mat, Vec>(X, 1)); put(o, math::cumsum<Mat, Vec>(X, 0)); Mat a, b; std::tie(a, b) = math::mode<Mat>(X, 0); put(o, a); put(o, b); put(o, math::softmax<Mat>(X)); put(o, Mat(math::logsumexp<Mat, Vec>(X, 1))); }
void lists(Out& o, const Data& d) { const Mat& X = d.X; puti(o, common::argsort<Mat, IMat, IVec>(X, 0, true)); put(o, common::sort<Mat>(X, 1)); puti(o, common::argmax<Mat, Vec, IVec>(X, -1)); Vec a, b; std::tie(a, b) = common::unique<Vec>(d.cls); put(o, a); put(o, b); put(o, common::repeat<Mat>(X, 2, 1)); for (auto& c : common::combinations<Z>({3, 1, 4, 5}, 2)) for (Z x : c) o.push_back(x); for (double x : common::difference<double>({5, 1, 3}, {3, 9})) o.push_back(x); Vec w = Vec::Ones(d.cls.size()); o.push_back(math::entropy<Vec>(d.cls, w)); o.push_back(math::gini<Vec>(d.cls, w)); auto t = data::train_test_split<Mat, Vec>(X, d.real, 0.6, true); put(o, std::get<0>(t)); put(o, std::get<3>(t)); std::vector<std::size_t> l, r; std::tie(l, r) = data::divide_on_feature<Mat>(X, 0, X(1, 0)); o.push_back(l.size()); for (auto i : r) o.push_back(i); IVec p = random::permutation<IVec>(7); puti(o, p); put(o, random::rand<Mat>(2, 3, -1.0, 1.0)); put(o, random::randn<Mat>(2, 2, 0.0, 1.0)); }
void rest(Out& o, const Data& d) { const Mat& X = d.X; Vec w = Vec::Constant(X.cols(), 0.25); loss::MSE<double> m(0.1); loss::LogLoss<double> l(0.1); loss::HingeLoss<double> h(0.1, 1.0); loss::HuberLoss<double> u(0.1, 1.0); o.push_back(m.evaluate(X, d.real, w)); put(o, m.gradient(X, d.real, w)); o.push_back(l.evaluate(X, d.bin, w)); put(o, l.gradient(X, d.bin, w)); Vec sg = d.bin.array() * 2 - 1; o.push_back(h.evaluate(X, sg, w)); put(o, h.gradient(X, sg, w)); o.push_back(u.evaluate(X, d.real, w)); put(o, u.gradient(X, d.real, w)); o.push_back(metric::explained_variance_score<Vec>(d.real, Vec(X.col(0)))); o.push_back(metric::minkowski_distance<Vec>(d.real, d.cls, 1)); preprocessing::TransactionEncoder<Z> e; auto S = e.fit_transform(d.T); o.push_back(S.nonZeros()); for (long r = 0; r < S.rows(); ++r) for (long c = 0; c < S.cols(); ++c) o.push_back(S.coeff(r, c)); tree::KDTree<double> t(X, 2, "manhattan"); auto q = t.query(Mat(X.topRows(3).array() + 0.25), 3); put(o, q.first); puti(o, q.second); auto rad = t.query_radius(Mat(X.topRows(2).array() - 0.25), 2.0); for (auto& v : rad) for (auto& i : v) { o.push_back(i.first); o.push_back(i.second); } }
const int ALL = COUNT + 3; const char* PART[] = {"linear algebra and statistics", "lists, splits and random numbers", "losses, metrics, encoder and k-d tree"};
struct Job { int v, d; Out out; S name; void operator()() { const Data& D = dat(d); const Mat& Q = query(d); out.clear(); if (v >= COUNT) { name = PART[v - COUNT]; if (v == COUNT) linalg(out, D.X); else if (v == COUNT + 1) lists(out, D); else rest(out, D); return; } S w; auto m = make(v, name); if (!fitted(*m, D, w)) { out.assign(1, -1); return; } out = m->state(); put(out, m->rows(Q)); } };
struct Solo { long points; Out out; };
const Solo& solo(int v, int d) { static std::map<int, Solo> c; auto i = c.find(v * 16 + d); if (i == c.end()) { auto& f = mc::Fibers::self(); Job a{v, d}; dat(d); query(d); for (int r = 0; r < 2; ++r) { f.start([&] { a(); }, [] {}); f.finish(); } i = c.emplace(v * 16 + d, Solo{f.t[0].points, a.out}).first; } return i->second; }
void together(Job a, Job b, long k, long m) { const Solo &x = solo(a.v, a.d), &y = solo(b.v, b.d); auto& f = mc::Fibers::self(); f.start([&] { a(); }, [&] { b(); }); f.run(0, k); f.run(1, m); f.run(0); f.finish(); mc::step(4);
  auto h = [&] { return a.name + " on data " + std::to_string(a.d) + " stopped after " + std::to_string(k) + " of " + std::to_string(x.points) + " points, beside " + b.name + " on data " + std::to_string(b.d) + (m < y.points ? " stopped after " + std::to_string(m) + " of " + std::to_string(y.points) : S()); }; MC_LOG(h()); MC_CHECK(same(a.out, x.out), h() << ": the first thread gets " << mc::str(a.out) << ", alone " << mc::str(x.out)); MC_CHECK(same(b.out, y.out), h() << ": the second thread gets " << mc::str(b.out) << ", alone " << mc::str(y.out)); mc::validated(2); }
std::vector<long> fib(long n) { std::vector<long> r; for (long a = 1, b = 2; a < n; std::swap(a, b), b += a) r.push_back(a); return r; }
}
MC_SCENARIO(pairs, 2) { int v = mc::choose(ALL, "first"), u = mc::choose(ALL, "second"); static const int HEAVY[] = {4, 5, 6, 8, 13, 28}; int dv = 1 + (v + u) % 3, du = dv % 3 + 1; long n = solo(v, dv).points; bool heavy = std::count(HEAVY, HEAVY + 6, v); if (heavy && !mc::thorough() && v != u && u % 4 != v % 4) mc::prune(); long k = mc::choose(n, "preempted after"); mc::state(v, u, k); together({v, dv}, {u, du}, k, LONG_MAX / 4); }
MC_SCENARIO(twice, 2) { int v = mc::choose(ALL, "both"), p = mc::choose(12, "data"); int a = p / 3, b = p % 3; if (b >= a) ++b; if (v == 6 && (a == 0 || b == 0)) mc::prune(); long n = solo(v, a).points; long k = mc::choose(n, "preempted after"); mc::state(v, p, k); together({v, a}, {v, b}, k, LONG_MAX / 4); }
MC_SCENARIO(two_preemptions, 2) { int v = mc::choose(ALL, "both"), p = mc::choose(3, "data"); int a = 1 + p, b = (p + 1) % 3 + 1; long n = solo(v, a).points, m = solo(v, b).points; bool full = n * m <= (mc::thorough() ? 400000 : 40000); if (!full && p && !mc::thorough()) mc::prune(); if (!full && n > 4200) mc::prune(); long k = mc::choose(n, "first preempted after"); auto F = fib(m); long j = full ? 1 + mc::choose(m, "second preempted after") : F[mc::choose(F.size(), "second preempted after")]; mc::state(v, p, k, j); together({v, a}, {v, b}, k, j); }
MC_SCENARIO(shared, 2) { int v = mc::choose(COUNT, "model"), d = mc::choose(4, "data"); struct Fit { std::unique_ptr<Model> m; S name; Mat Q[2]; Mat out[2]; long points[2]; }; static std::map<int, Fit> C; auto in = C.emplace(v * 4 + d, Fit()); Fit& x = in.first->second; auto& f = mc::Fibers::self();
  if (in.second) { S w; x.m = make(v, x.name); mc::env_stream(1); if (!fitted(*x.m, dat(d), w)) x.m.reset(); else { x.Q[0] = query(d); x.Q[1] = dat(d).X.colwise().reverse().array() + 0.25; for (int i = 0; i < 2; ++i) for (int r = 0; r < 2; ++r) { f.start([&] { x.out[i] = x.m->rows(x.Q[i]); }, [] {}); f.finish(); x.points[i] = f.t[0].points; } } } if (!x.m) mc::prune();
  long n = x.points[0], m = x.points[1]; long k = mc::choose(n, "first preempted after"); bool full = n <= 150 && m <= 150; auto F = fib(m); F.push_back(m); long j = full ? 1 + mc::choose(m, "second preempted after") : F[mc::choose(F.size(), "second preempted after")]; mc::state(v, d, k, j); Mat a, b; f.start([&] { a = x.m->rows(x.Q[0]); }, [&] { b = x.m->rows(x.Q[1]); }); f.run(0, k); f.run(1, j); f.run(0); f.finish(); mc::step(4); S h = x.name + " fitted on data " + std::to_string(d) + ", asked by two threads (stops after " + std::to_string(k) + " and " + std::to_string(j) + " points)"; MC_LOG(h); auto eq = [](const Mat& p, const Mat& q) { Out s, t; put(s, p); put(t, q); return same(s, t); }; MC_CHECK(eq(a, x.out[0]), h << ": the first gets " << mc::str(a) << ", alone " << mc::str(x.out[0])); MC_CHECK(eq(b, x.out[1]), h << ": the second gets " << mc::str(b) << ", alone " << mc::str(x.out[1])); mc::validated(2); }
