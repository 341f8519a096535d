// flags: -O1
//# rand/randn/randint: every shape up to 2x3 (thorough 3x3) with every combination of menu outcomes (rand: low, middle, largest value below high; randint: every value of a range up to 6, else both ends and middle; randn: +1, -1, +1/4 standard deviation), 4 ranges; every shape up to 12x12 with numbered streams
//# permutation: every size 0..6 (thorough 7) with every shuffle outcome, every size up to 200 with numbered streams
//# every permutation of 2..4 and every value (pair) of small integer ranges appears among 3000 numbered streams
//! draws come from the std distributions; with other facilities only range and shape are judged
//# rand, randint and randn of 1..3, 17, 33, 70, 300 rows x the same columns, on two numbered streams, no value repeated throughout a row or column
//# randint of 64-bit and unsigned integers over ranges beyond 2^31 and 2^62, near both ends of the type and of the whole int range: every value in range, both halves reached
#include "core.hpp"
using namespace openml;
namespace { const double LO[] = {0, -1, 2, -3}, HI[] = {1, 1, 5, -1}; }
MC_SCENARIO(uniform_draws, 3) {
  int r = 1 + mc::choose(mc::thorough() ? 3 : 2, "rows"), c = 1 + mc::choose(3, "cols"), k = mc::choose(5, "range");
  Mat M = k == 4 ? random::rand<Mat>(r, c) : random::rand<Mat>(r, c, LO[k], HI[k]); mc::step(); double lo = k == 4 ? 0 : LO[k], hi = k == 4 ? 1 : HI[k];
  MC_CHECK(M.rows() == r && M.cols() == c, "rand gave shape " << M.rows() << "x" << M.cols());
  MC_CHECK((M.array() >= lo).all() && (M.array() < hi).all(), "rand entry outside [" << lo << "," << hi << "): " << mc::str(M));
  MC_LOG(mc::str(M)); mc::state(M, k); mc::validated();
}
MC_SCENARIO(integer_draws, 3) {
  static const int L[] = {0, -2, 5, 0, 7}, U[] = {1, 1, 9, 100, 7};
  int r = 1 + mc::choose(2, "rows"), c = 1 + mc::choose(mc::thorough() ? 3 : 2, "cols"), k = mc::choose(6, "range");
  Eigen::MatrixXi M = k == 5 ? random::randint<int>(r, c) : random::randint<int>(r, c, L[k], U[k]); mc::step(); int lo = k == 5 ? 0 : L[k], hi = k == 5 ? 100 : U[k];
  MC_CHECK(M.rows() == r && M.cols() == c, "randint gave shape " << M.rows() << "x" << M.cols());
  MC_CHECK((M.array() >= lo).all() && (M.array() <= hi).all(), "randint entry outside [" << lo << "," << hi << "]: " << mc::str(M));
  MC_LOG(mc::str(M)); mc::state(M, k); mc::validated();
}
MC_SCENARIO(normal_draws, 3) {
  int r = 1 + mc::choose(mc::thorough() ? 3 : 2, "rows"), c = 1 + mc::choose(3, "cols"), k = mc::choose(4, "params");
  static const double m[] = {0, 5, -2, 1}, s[] = {1, 2, 0.5, 3};
  Mat M = k == 0 ? random::randn<Mat>(r, c, 0.0, 1.0) : random::randn<Mat>(r, c, m[k], s[k]); mc::step();
  MC_CHECK(M.rows() == r && M.cols() == c, "randn gave shape " << M.rows() << "x" << M.cols());
  for (long i = 0; i < M.size(); ++i) { double z = (M.data()[i] - m[k]) / s[k]; MC_CHECK(mc::near(z, 1) || mc::near(z, -1) || mc::near(z, 0.25), "entry " << M.data()[i] << " is not loc + scale * (a standard draw)"); }
  MC_LOG(mc::str(M)); mc::state(M, k); mc::validated();
}
MC_SCENARIO(shapes, 2) {
  int r = 1 + mc::choose(12, "rows"), c = 1 + mc::choose(12, "cols"), k = mc::choose(4, "range"), st = mc::choose(3, "stream"); mc::env_stream(st + 1);
  Mat M = random::rand<Mat>(r, c, LO[k], HI[k]); Eigen::MatrixXi J = random::randint<int>(r, c, 3 * k, 3 * k + 2); Mat G = random::randn<Mat>(r, c, (double)k, 0.0); mc::step(3);
  MC_CHECK(M.rows() == r && M.cols() == c && J.rows() == r && J.cols() == c && G.rows() == r && G.cols() == c, "wrong shape");
  MC_CHECK((M.array() >= LO[k]).all() && (M.array() < HI[k]).all() && (J.array() >= 3 * k).all() && (J.array() <= 3 * k + 2).all(), "value out of range");
  MC_CHECK((G.array() == (double)k).all(), "zero-scale normal matrix is not constant " << mc::str(G));
  if (r * c >= 30) MC_CHECK(M.maxCoeff() > M.minCoeff(), "all uniform draws equal");
  MC_LOG(r << "x" << c); mc::state(r, c, k, st); mc::validated(3);
}
MC_SCENARIO(permutations, 2) {
  int n = mc::choose(mc::thorough() ? 8 : 7, "n"), t = mc::choose(n <= 3 ? 2 : 1, "twice");
  for (int q = 0; q <= t; ++q) {
    IVec p = random::permutation<IVec>(n); mc::step(); MC_CHECK(p.size() == n, "permutation of " << n << " has " << p.size() << " entries");
    std::set<long> s; for (int i = 0; i < n; ++i) MC_CHECK(p(i) >= 0 && p(i) < n && s.insert(p(i)).second, "not a permutation: " << mc::str(p.transpose()));
    MC_LOG(mc::str(p.transpose())); mc::state(p, q); mc::validated();
  }
}
MC_SCENARIO(permutation_sizes, 1) {
  int n = mc::choose(200, "n"), st = mc::choose(3, "stream"); mc::env_stream(st + 1); IVec p = random::permutation<IVec>(n); mc::step(); std::set<long> s;
  MC_CHECK(p.size() == n, "size"); for (int i = 0; i < n; ++i) MC_CHECK(p(i) >= 0 && p(i) < n && s.insert(p(i)).second, "not a permutation of " << n);
  MC_LOG(n); mc::state(n, st); mc::validated();
}
MC_SCENARIO(every_outcome_attainable, 1) {
  int k = mc::choose(5, "what"); std::set<std::vector<long>> seen; std::size_t want = k == 0 ? 2 : k == 1 ? 6 : k == 2 ? 24 : k == 3 ? 4 : 9;
  for (int s = 1; s <= 3000 && seen.size() < want; ++s) {
    mc::env_stream(s);
    if (k < 3) { IVec p = random::permutation<IVec>(k + 2); seen.insert(std::vector<long>(p.data(), p.data() + p.size())); }
    else if (k == 3) { Eigen::MatrixXi J = random::randint<int>(1, 1, -1, 2); seen.insert({J(0, 0)}); }
    else { Eigen::MatrixXi J = random::randint<int>(1, 2, 4, 6); seen.insert({J(0, 0), J(0, 1)}); }
    mc::step();
  }
  MC_LOG("kind " << k << " outcomes " << seen.size()); mc::state(k); mc::validated();
  MC_CHECK(seen.size() == want, "only " << seen.size() << " of " << want << " outcomes are ever produced");
}
MC_SCENARIO(large_shapes, 2) {
  int r = mc::size(1, 3, {17, 33, 70, 300}, "rows"), c = mc::size(1, 3, {17, 33, 70, 300}, "cols"), st = mc::choose(2, "stream"); mc::env_stream(st + 5); mc::state(r, c, st); MC_LOG(r << "x" << c);
  Mat M = random::rand<Mat>(r, c, -2.0, 3.0), D = random::rand<Mat>(r, c); Eigen::MatrixXi J = random::randint<int>(r, c, -3, 3); Mat G = random::randn<Mat>(r, c, 10.0, 2.0), Z = random::randn<Mat>(r, c); mc::step(5);
  for (const Mat* A : {&M, &D, &G, &Z}) { MC_CHECK(A->rows() == r && A->cols() == c, "shape " << A->rows() << "x" << A->cols() << " instead of " << r << "x" << c); std::set<double> u(A->data(), A->data() + A->size()); MC_CHECK((long)u.size() >= A->size() - 2, "only " << u.size() << " different values in a " << r << "x" << c << " random matrix"); }
  MC_CHECK(J.rows() == r && J.cols() == c && (J.array() >= -3).all() && (J.array() <= 3).all(), "randint out of range"); MC_CHECK((M.array() >= -2).all() && (M.array() < 3).all() && (D.array() >= 0).all() && (D.array() < 1).all(), "rand out of range");
  if (r * c >= 900) { MC_CHECK(std::fabs(G.mean() - 10) < 1 && std::fabs(Z.mean()) < 0.5, "means " << G.mean() << " " << Z.mean()); double s = std::sqrt((G.array() - G.mean()).square().mean()); MC_CHECK(s > 1 && s < 3.5, "spread " << s); std::set<int> v(J.data(), J.data() + J.size()); MC_CHECK(v.size() == 7, "only " << v.size() << " of 7 integers"); } mc::validated(5);
}
namespace { template <class T> void wide_range(T lo, T hi, const char* what) {
  int r = mc::size(1, 2, {40}, "r"), st = mc::choose(3, "stream"); mc::env_stream(st + 3); typedef Eigen::Matrix<T, -1, -1> M; M J = random::randint<T, M>(r, 5, lo, hi); mc::step(); mc::state(r, st, (double)lo, (double)hi); MC_LOG(what << " " << r);
  MC_CHECK(J.rows() == r && J.cols() == 5, "randint shape"); std::set<T> u; bool low = false, up = false; T mid = lo + (hi / 2 - lo / 2); for (long i = 0; i < J.size(); ++i) { T v = J.data()[i]; MC_CHECK(v >= lo && v <= hi, "randint of " << what << " from " << +lo << " to " << +hi << " drew " << +v); u.insert(v); low |= v <= mid; up |= v > mid; }
  if (r == 40) { MC_CHECK(low && up, "randint of " << what << " from " << +lo << " to " << +hi << " never leaves one half of its range"); if (hi / 2 - lo / 2 > 1000000) MC_CHECK(u.size() >= 199, "only " << u.size() << " different values among 200 draws from " << +lo << " to " << +hi); } mc::validated(); } }
MC_SCENARIO(wide_ranges, 2) {
  typedef long long L; typedef std::size_t Z; switch (mc::choose(9, "range")) {
    case 0: wide_range<L>(0, 5000000000LL, "long long"); break; case 1: wide_range<L>(5000000000LL, 5000000001LL, "long long"); break; case 2: wide_range<L>(-(1LL << 62), (1LL << 62), "long long"); break; case 3: wide_range<L>((1LL << 62), std::numeric_limits<L>::max(), "long long"); break;
    case 4: wide_range<Z>(0, 1ULL << 40, "size_t"); break; case 5: wide_range<Z>(1ULL << 63, std::numeric_limits<Z>::max(), "size_t"); break; case 6: wide_range<int>(std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), "int"); break; case 7: wide_range<unsigned>(3000000000U, 4000000000U, "unsigned"); break; default: wide_range<int>(65530, 70000, "int"); } }
