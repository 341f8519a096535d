// Prelude included (-include) before any repository header.
//
// It turns every source of nondeterminism the library consults into a choice
// point of the explorer:
//   * std::shuffle, the std distributions, std::rand, std::random_device, the
//     clock            -> mc::choose() (enumerated) or a fixed numbered stream
//   * uninitialised heap memory  -> filled with mc::env().fill
//   * Eigen assertions           -> a C++ exception, so a rejected call can be
//                                   told apart from a wrong answer
// and declares the stateless explorer (engine.cpp) that runs every execution.
#pragma once
#define _USE_MATH_DEFINES
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {
struct EigenAssert : std::runtime_error {
  explicit EigenAssert(const char* s) : std::runtime_error(std::string("Eigen assertion: ") + s) {}
};
[[noreturn]] inline void eigen_assert_failed(const char* s) { throw EigenAssert(s); }
}
#ifndef MC_NO_EIGEN
#define eigen_assert(x) do { if (!(x)) ::mc::eigen_assert_failed(#x); } while (false)
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Cholesky>
#include <eigen3/Eigen/Eigenvalues>
#include <eigen3/Eigen/QR>
#include <eigen3/Eigen/LU>
#include <eigen3/Eigen/SVD>
#include <eigen3/Eigen/SparseCore>
#endif

namespace mc {

// ---------------------------------------------------------------- explorer
int choose(int n, const char* label = "");   // 0..n-1, every value explored
[[noreturn]] void fail(const std::string& msg);
void step(long n = 1);                       // n calls into the code under test
void state_hash(std::uint64_t h);            // one distinct model state
void validated(long n = 1);                  // n answers compared with the model
void prune();                                // abandon this execution (not a case)
bool logging();
void log(const std::string& s);              // kept for samples / replays
bool thorough();
bool worker_context();
extern void (*yield_hook)();                 // called at every allocation (C41)
std::string scratch_dir();                   // private, removed at the end
#define MC_LOG(expr) do { if (::mc::logging()) { std::ostringstream o__; o__ << expr; ::mc::log(o__.str()); } } while (0)
#define MC_CHECK(cond, expr) do { if (!(cond)) { std::ostringstream o__; o__ << expr; ::mc::fail(o__.str()); } } while (0)

struct Env {
  bool enumerate = true;      // enumerate draws / shuffles
  long budget = 1L << 40;     // that many draws are enumerated, later ones come from the stream
  std::uint64_t stream = 1;   // stream id for non-enumerated draws
  std::uint64_t ctr = 0;
  unsigned char fill = 0xFF;  // content of fresh heap memory
  bool filling = true;
  bool recording = true; std::vector<double> drawn;  // uniform real draws of this execution, in order
};
Env& env();
// reset at the start of each execution by the engine
inline void env_stream(std::uint64_t id) { env().enumerate = false; env().stream = id; env().ctr = 0; }
inline void env_enumerate(long budget = 1L << 40) { env().enumerate = true; env().budget = budget; env().ctr = 0; }
std::uint64_t draw64();                     // next value of the stream
inline bool take() { Env& e = env(); if (e.enumerate && e.budget > 0) { --e.budget; return true; } return false; }
inline double draw01() { return (draw64() >> 11) * (1.0 / 9007199254740992.0); }

struct Scenario {
  const char* name; void (*body)(); int depth; double hang_s;
  Scenario(const char* n, void (*b)(), int d, double h = 30);
};
// depth: number of leading choices that identify a unit of parallel work
#define MC_SCENARIO(name, depth) \
  static void name(); static ::mc::Scenario mc_reg_##name(#name, &name, depth); static void name()

// ---------------------------------------------------------------- hashing
inline std::uint64_t mix(std::uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
struct H {
  std::uint64_t h = 0x1234567;
  void raw(std::uint64_t v) { h = mix(h ^ v); }
  template <class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type add(T v) { raw((std::uint64_t)v); }
  void add(double v) { std::uint64_t u; if (v == 0) v = 0; std::memcpy(&u, &v, 8); raw(u); }
  void add(const std::string& s) { for (char c : s) raw((unsigned char)c); raw(s.size()); }
  void add(const char* s) { add(std::string(s)); }
  template <class T> void add(const std::vector<T>& v) { raw(v.size() + 77); for (std::size_t i = 0; i < v.size(); ++i) { T t = v[i]; add(t); } }
#ifndef MC_NO_EIGEN
  template <class D> void add(const Eigen::DenseBase<D>& m) { raw(m.rows()); raw(m.cols()); for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) add(m.derived().coeff(i, j)); }
#endif
  template <class A, class B> void add(const std::pair<A, B>& p) { add(p.first); add(p.second); }
};
template <class... A> void state(const A&... a) { H h; (void)std::initializer_list<int>{(h.add(a), 0)...}; state_hash(h.h); }

// ---------------------------------------------------------------- printing
inline std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.12g", v); return b; }
template <class T> typename std::enable_if<std::is_arithmetic<T>::value, std::string>::type str(T v) { return num((double)v); }
inline std::string str(const std::string& s) { return "\"" + s + "\""; }
inline std::string str(bool b) { return b ? "true" : "false"; }
template <class A, class B> std::string str(const std::pair<A, B>& p);
template <class T> std::string str(const std::vector<T>& v);
template <class T> std::string str(const std::set<T>& v);
template <class A, class B> std::string str(const std::pair<A, B>& p) { return "(" + str(p.first) + "," + str(p.second) + ")"; }
template <class T> std::string str(const std::vector<T>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { T t = v[i]; s += (i ? "," : "") + str(t); } return s + "]"; }
template <class T> std::string str(const std::set<T>& v) { std::string s = "{"; bool f = true; for (auto& x : v) { s += (f ? "" : ",") + str(x); f = false; } return s + "}"; }
#ifndef MC_NO_EIGEN
template <class D> std::string str(const Eigen::DenseBase<D>& m) {
  std::string s = "["; for (Eigen::Index i = 0; i < m.rows(); ++i) { if (i * m.cols() > 160) { s += ";..."; break; } s += i ? ";" : ""; for (Eigen::Index j = 0; j < m.cols(); ++j) s += (j ? " " : "") + num((double)m.derived().coeff(i, j)); } return s + "](" + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ")";
}
#endif

// ---------------------------------------------------------------- numerics
inline bool near(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  double s = 1.0; if (std::fabs(a) > s) s = std::fabs(a); if (std::fabs(b) > s) s = std::fabs(b);
  return std::fabs(a - b) <= tol * s;
}
#ifndef MC_NO_EIGEN
template <class A, class B> bool nearM(const Eigen::DenseBase<A>& a, const Eigen::DenseBase<B>& b, double tol = 1e-9) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j)
    if (!near((double)a.derived().coeff(i, j), (double)b.derived().coeff(i, j), tol)) return false;
  return true;
}
template <class A> bool finite(const Eigen::DenseBase<A>& a) {
  for (Eigen::Index i = 0; i < a.rows(); ++i) for (Eigen::Index j = 0; j < a.cols(); ++j) if (!std::isfinite((double)a.derived().coeff(i, j))) return false;
  return true;
}
#endif
#ifndef MC_NO_EIGEN
// One execution in `every` (decided by the data) gets a long batch out of the rows of X and Q, the others a single row.
inline Eigen::MatrixXd tall(const Eigen::MatrixXd& X, const Eigen::MatrixXd& Q, int every = 8) {
  H h; h.add(X); std::uint64_t v = mix(h.h); if (v % every) return Q.topRows(1);
  static const int L[] = {23, 33, 67, 130, 257, 1030}; long n = L[(v >> 20) % (((v >> 40) % 16) ? 4 : 6)]; Eigen::MatrixXd B(n, X.cols());
  for (long i = 0; i < n; ++i) { if (i % 3 == 1) B.row(i) = Q.row((i * 3 + i / 5) % Q.rows()); else B.row(i) = X.row((i * 5 + i / 7) % X.rows()); } return B;
}
#endif
// calls f; true if it threw any std::exception (or Eigen assertion)
template <class F> bool throws(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }
// value i of a small alphabet, chosen exhaustively
template <class T, std::size_t N> T pick(const T (&a)[N], const char* label = "") { return a[choose((int)N, label)]; }

// lo..hi and some larger sizes
inline int size(int lo, int hi, std::initializer_list<int> more, const char* label = "size") { int k = choose(hi - lo + 1 + (int)more.size(), label); return k <= hi - lo ? lo + k : more.begin()[k - (hi - lo + 1)]; }

// places a T in storage pre-filled with a byte, so unset members are visible
template <class T> struct Dirty {
  typename std::aligned_storage<sizeof(T), alignof(T)>::type s; T* p = nullptr;
  template <class... A> explicit Dirty(unsigned char b, A&&... a) { std::memset(&s, b, sizeof s); volatile unsigned char* q = (volatile unsigned char*)&s; (void)*q; p = new (&s) T(std::forward<A>(a)...); }
  ~Dirty() { if (p) p->~T(); }
  T* operator->() { return p; } T& operator*() { return *p; }
  Dirty(const Dirty&) = delete;
};
}  // namespace mc

// ------------------------------------------------ shadows of std randomness
namespace std {
template <class It, class G> void mc_shuffle_(It first, It last, G&&) {
  auto n = last - first;
  if (n <= 1) return;
  bool e = ::mc::take();
  for (auto i = n - 1; i > 0; --i) {
    auto j = e ? (decltype(i))::mc::choose((int)(i + 1), "shuffle") : (decltype(i))(::mc::draw64() % (std::uint64_t)(i + 1));
    if (i != j) std::iter_swap(first + i, first + j);
  }
}
template <class It> void mc_random_shuffle_(It first, It last) { int z = 0; mc_shuffle_(first, last, z); }
template <class T = double> struct mc_uniform_real_ {
  using result_type = T; T a_, b_;
  explicit mc_uniform_real_(T a = 0, T b = 1) : a_(a), b_(b) {}
  T a() const { return a_; } T b() const { return b_; } void reset() {}
  template <class G> T operator()(G&) { T v = next(); if (::mc::env().recording) ::mc::env().drawn.push_back((double)v); return v; }
  T next() {
    if (::mc::take()) switch (::mc::choose(3, "uniform")) { case 0: return a_; case 1: return a_ + (b_ - a_) * (T)0.5; default: return std::nextafter(b_, a_); }
    return a_ + (b_ - a_) * (T)::mc::draw01();
  }
};
template <class T = int> struct mc_uniform_int_ {
  using result_type = T; T a_, b_;
  explicit mc_uniform_int_(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {}
  T a() const { return a_; } T b() const { return b_; } void reset() {}
  template <class G> T operator()(G&) {
    std::uint64_t span = (std::uint64_t)b_ - (std::uint64_t)a_;
    if (::mc::take()) {
      if (span < 6) return a_ + (T)::mc::choose((int)span + 1, "uniform_int");
      switch (::mc::choose(3, "uniform_int")) { case 0: return a_; case 1: return a_ + (T)(span / 2); default: return b_; }
    }
    return a_ + (T)(span + 1 == 0 ? ::mc::draw64() : ::mc::draw64() % (span + 1));
  }
};
template <class T = double> struct mc_normal_ {
  using result_type = T; T m_, s_;
  explicit mc_normal_(T m = 0, T s = 1) : m_(m), s_(s) {}
  T mean() const { return m_; } T stddev() const { return s_; } void reset() {}
  template <class G> T operator()(G&) {
    if (::mc::take()) switch (::mc::choose(3, "normal")) { case 0: return m_ + s_; case 1: return m_ - s_; default: return m_ + s_ * (T)0.25; }
    T x = 0; for (int i = 0; i < 12; ++i) x += (T)::mc::draw01();
    return m_ + s_ * (x - 6);
  }
};
}  // namespace std
#define shuffle mc_shuffle_
#define random_shuffle mc_random_shuffle_
#define uniform_real_distribution mc_uniform_real_
#define uniform_int_distribution mc_uniform_int_
#define normal_distribution mc_normal_

#ifndef MC_NO_EIGEN
using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd; using IVec = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
using IMat = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, Eigen::Dynamic>;
#endif
