// Every estimator and core function for one element type (C42).
#pragma once
#include "core.hpp"
#include "core/loss/huber_loss.hpp"
#include "core/optimizer/sgd/decay_policies/exponential_decay.hpp"
#include "core/optimizer/sgd/update_policies/momentum_update.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
#include "methods/cluster/kmeans.hpp"
#include "methods/decomposition/pca.hpp"
#include "methods/decomposition/truncated_svd.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
using namespace openml;
namespace c42 {
typedef std::string S; typedef std::size_t Z; typedef std::vector<double> Out;
struct Data { Mat X, Q; Vec bin, cls, real; };
struct Threw { S why; };
template <class A> inline void put(Out& o, const Eigen::DenseBase<A>& e) { const auto m = e.derived().eval(); o.push_back(m.rows()); o.push_back(m.cols()); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) o.push_back((double)m(i, j)); }
template <class T> struct R {
  typedef Eigen::Matrix<T, -1, -1> M; typedef Eigen::Matrix<T, -1, 1> V; typedef Eigen::Vector<Eigen::Index, -1> I; typedef Eigen::Matrix<Eigen::Index, -1, -1> IM;
  M X, Q; V bin, cls, real, sg; Out o;
  explicit R(const Data& d) : X(d.X.cast<T>()), Q(d.Q.cast<T>()), bin(d.bin.cast<T>()), cls(d.cls.cast<T>()), real(d.real.cast<T>()), sg((d.bin.array() * 2 - 1).matrix().cast<T>()) {}
  // a label counts where the two best classes are apart
  void label(const M& y, const M& p) { for (long i = 0; i < y.rows(); ++i) { double a = -1, b = -1; for (long j = 0; j < p.cols(); ++j) { double v = p(i, j); if (v > a) { b = a; a = v; } else if (v > b) b = v; } o.push_back(!(a - b < 0.00731) ? (double)y(i, 0) : -7); } }
  template <class E> void linear(E&& m, const V& y) { m.fit(X, y); put(o, m.predict(Q)); put(o, m.get_coef()); }
  template <class E> void proba(E&& m, const V& y) { m.fit(X, y); M p = m.predict_prob(Q); label(m.predict(Q), p); put(o, m.get_coef()); put(o, p); }
  template <class E> void bayes(E&& m) { m.fit(X, cls); M p = m.predict_prob(Q); label(m.predict(Q), p); put(o, p); put(o, m.predict_log_prob(Q)); put(o, m.get_prior_prob()); put(o, m.get_classes()); }
  template <class E> void decomp(E&& m) { m.fit(X); put(o, m.transform(Q)); put(o, m.get_components()); put(o, m.get_explained_var()); put(o, m.get_explained_var_ratio()); put(o, m.get_singular_values()); }
  template <class E> void mixture(E&& m) { m.fit(X); M p = m.predict_prob(Q); label(m.predict(Q), p); put(o, p); put(o, m.get_means()); put(o, m.get_weights()); for (auto& c : m.get_covariance()) put(o, c); }
  template <class L> void descend(L l, const V& y, int k) { V w = V::Zero(X.cols()); M w1 = w; using namespace optimizer; VanillaUpdate<T> u; MomentumUpdate<T> mo(0.5); NesterovMomentumUpdate<T> ne(0.5); StepDecay<T> st(0.03125); ExponentialDecay<T> ex(0.03125, 0.125); auto go = [&](auto&& q) { q.optimize(X, y); put(o, q.get_coef()); };
    if (k == 0) { go(SGD<T, L, VanillaUpdate<T>, StepDecay<T>>(w1, l, u, st, 6, 2, 50, 1e-9, true, false)); go(SGD<T, L, MomentumUpdate<T>, ExponentialDecay<T>>(w1, l, mo, ex, 6, 3, 50, 1e-9, true, false)); go(SGD<T, L, NesterovMomentumUpdate<T>, StepDecay<T>>(w1, l, ne, st, 6, 1, 50, 1e-9, false, false)); }
    else if (k == 1) { go(SAG<T, L, VanillaUpdate<T>, StepDecay<T>>(w1, l, u, st, 6, 2, 50, 1e-9, true, false)); go(TruncatedGradient<T, L, VanillaUpdate<T>, StepDecay<T>>(w, l, u, st, 6, 2, 50, 1e-9, 0.125, 0.5, true, false)); go(SCD<T, L>(w, l, 20, 1.0, 0.0625, true, false)); }
    else { typedef LineSearchParams<T> P; for (S c : {"ARMIJO", "WOLFE"}) go(LBFGS<T, L, P>(w, l, P(1e-4, 0.9, 40, c), 4, 3, 0, 1e-9, 0, "backtracking", false, false)); go(LBFGS<T, L, P>(w, l, P(1e-4, 0.9, 40, "STRONG_WOLFE"), 4, 3, 0, 1e-9, 0, "bracketing", false, false)); } }
  template <class L> void loss(L l, const V& y) { for (int k = 0; k < 3; ++k) { V w(X.cols()); for (long j = 0; j < w.size(); ++j) w(j) = T((j * 3 + k * 2) % 5 * 0.25 - 0.5); o.push_back(l.evaluate(X, y, w)); put(o, l.gradient(X, y, w)); } }
  void core(int k) {
    M A = X.transpose() * X + M::Identity(X.cols(), X.cols()), U, W, P; V s; switch (k) {
      case 0: std::tie(U, s, W) = math::exact_svd<M, V>(X, false); put(o, s); put(o, U.leftCols(s.size()) * s.asDiagonal() * W.leftCols(s.size()).transpose()); put(o, U.transpose() * U); put(o, W.transpose() * W); std::tie(U, s, W) = math::randomized_svd<M, V, I>(X, 1, 3, 4, "QR", true); put(o, s); put(o, U * s.asDiagonal() * W); break;
      case 1: put(o, math::pinv<M, V>(A)); put(o, math::pinv<M, V>(X, 1e-2)); o.push_back(math::logdet<M>(A)); std::tie(U, W) = math::qr<M>(X); put(o, U * W); put(o, math::cholesky<M>(A)); { auto lu = math::lu<M>(A, false); put(o, M(std::get<0>(lu) * std::get<1>(lu) * std::get<2>(lu))); } { M vals, vecs; std::tie(vals, vecs) = math::eig<M>(A); std::vector<T> e(vals.data(), vals.data() + vals.size()); std::sort(e.begin(), e.end()); o.insert(o.end(), e.begin(), e.end()); } break;
      case 2: put(o, math::cov<M>(X)); put(o, math::center<M>(X)); put(o, math::diagmat<M, V>(real)); for (int a : {-1, 0, 1}) { put(o, math::var<M>(X, a)); put(o, math::mean<M>(X, a)); put(o, math::sum<M>(X, a)); } for (int a : {0, 1}) { put(o, math::median<M, V>(X, a)); put(o, math::cumsum<M, V>(X, a)); put(o, math::norm2<M, V>(X, a)); } put(o, math::row_norms<M, V>(X)); put(o, math::power<M>(X, 2.0)); put(o, math::abs<M>(X)); put(o, math::sign<M>(X)); break;
      case 3: for (int a : {0, 1}) { put(o, math::softmax<M>(X, a)); put(o, math::logsumexp<M, V>(X, a)); std::tie(U, W) = math::mode<M>(X, a); put(o, U); put(o, W); } put(o, math::sigmoid<M>(X)); o.push_back(math::entropy<V>(cls)); o.push_back(math::gini<V>(cls)); { V w = V::LinSpaced(cls.size(), T(1), T(3)); o.push_back(math::entropy<V>(cls, w)); o.push_back(math::gini<V>(cls, w)); } o.push_back(math::gaussian_fn<T>(T(0.5), T(0.25), T(2))); break;
      case 4: for (int a : {-1, 0, 1}) for (bool r : {false, true}) { if (a >= 0 || r) put(o, common::sort<M>(X, a, r)); } put(o, common::argmax<M, V, I>(X, 0)); put(o, common::argmin<M, V, I>(X, 1)); std::tie(s, bin) = common::unique<V>(cls); put(o, s); put(o, bin); put(o, common::repeat<M>(X, 2, 0)); put(o, common::hstack<M>(X, X)); put(o, common::vstack<M>(X, Q)); put(o, common::flatten<M, V>(X)); put(o, common::clip<M>(X, T(2), T(0.5))); put(o, common::fmin<M>(X, T(1))); { std::vector<T> v(real.data(), real.data() + real.size()); for (Z i : common::argsort<T>(v)) o.push_back(v[i]); } break;
      case 5: { auto t = data::train_test_split<M, V>(X, real, 0.5, true); put(o, std::get<0>(t)); put(o, std::get<1>(t)); put(o, std::get<2>(t)); put(o, std::get<3>(t)); auto h = data::divide_on_feature<M>(X, 0, X(0, 0)); for (auto i : std::get<0>(h)) o.push_back(i); o.push_back(-1); for (auto i : std::get<1>(h)) o.push_back(i); M B; V b; random::shuffle_data<M, V>(X, real, B, b); put(o, B); put(o, b); put(o, random::rand<M>(2, 3, T(-1), T(2))); put(o, random::randn<M>(2, 2)); break; }
      case 6: loss(loss::MSE<T>(0.25), real); loss(loss::LogLoss<T>(0.25), bin); loss(loss::HingeLoss<T>(0.25, 1.0), sg); loss(loss::HuberLoss<T>(0.25, 0.625), real); { loss::SoftmaxLoss<T> l(0.25); M w(X.cols(), 2); for (long i = 0; i < w.size(); ++i) w.data()[i] = T(i % 5 * 0.25 - 0.5); o.push_back(l.evaluate(X, bin, w)); put(o, l.gradient(X, bin, w)); } break;
      case 7: { V p = X.col(0); o.push_back(metric::explained_variance_score<V>(real, p)); o.push_back(metric::mean_absolute_error<V>(real, p)); for (int q : {1, 2, (int)Eigen::Infinity}) o.push_back(metric::minkowski_distance<V>(real, p, q)); std::vector<T> a(real.data(), real.data() + real.size()), b(p.data(), p.data() + p.size()); o.push_back(metric::euclidean_distance<T>(a, b)); o.push_back(metric::manhattan_distance<T>(a, b)); break; }
      case 8: for (S me : {"euclidean", "manhattan", "chebyshev"}) { tree::KDTree<T> t(X, 2, me); auto q = t.query(Q, std::min<Z>(3, X.rows())); put(o, q.first); for (auto& v : t.query_radius(Q, 1.37)) { std::vector<double> r; for (auto& i : v) r.push_back(i.first); std::sort(r.begin(), r.end()); o.push_back(r.size()); o.insert(o.end(), r.begin(), r.end()); } } break;
      case 9: descend(loss::MSE<T>(0.125), real, 0); descend(loss::LogLoss<T>(0.125), bin, 0); break;
      case 10: descend(loss::MSE<T>(0.125), real, 1); descend(loss::LogLoss<T>(0.125), bin, 1); break;
      default: descend(loss::MSE<T>(0.125), real, 2); descend(loss::LogLoss<T>(0.125), bin, 2); } }
  S estimator(int v) {
    using namespace linear_model; switch (v) {
      case 0: linear(LinearRegression<T>(), real); return "linear regression";
      case 1: linear(LinearRegression<T>(false), real); return "linear regression without intercept";
      case 2: linear(RidgeRegression<T>(), real); return "ridge regression";
      case 3: linear(RidgeRegression<T>(2.0, false), real); return "ridge regression without intercept";
      case 4: linear(LassoRegression<T>((Z)100, 0.05, 30.0, false, false, true), real); return "lasso";
      case 5: linear(LassoRegression<T>((Z)100, 0.2, 30.0, true, false, false), real); return "lasso without intercept";
      case 6: proba(LogisticRegression<T>(0.05, 0.01, 1e-9, (Z)2, (Z)20, (Z)50, S("sag"), S("l2"), true, false), bin); return "logistic regression (sag)";
      case 7: proba(LogisticRegression<T>(0.05, 0.0, 1e-9, (Z)2, (Z)20, (Z)50, S("sgd"), S("None"), true, false), bin); return "logistic regression (sgd)";
      case 8: proba(LogisticRegression<T>(0.05, 20.0, (Z)100, S("scd"), S("l1"), true, false), bin); return "logistic regression (scd)";
      case 9: proba(LogisticRegression<T>(1e-9, 1e-4, 1e-9, 0.9, (Z)4, (Z)5, (Z)0, (Z)40, S("lbfgs"), S("None"), S("backtracking"), S("ARMIJO"), true, false), bin); return "logistic regression (lbfgs)";
      case 10: linear(Perceptron<T>(0.125, 0.0, 1e-9, (Z)2, (Z)12, (Z)50, S("None"), true, true, false), bin); return "perceptron";
      case 11: linear(Perceptron<T>(0.0625, 0.1, 1e-9, (Z)1, (Z)12, (Z)50, S("l2"), false, true, false), bin); return "perceptron without intercept";
      case 12: proba(SoftmaxRegression<T>(0.1, 0.0, 1e-9, (Z)2, (Z)12, (Z)50, S("sgd"), S("None"), true, false), cls); return "softmax regression";
      case 13: proba(SoftmaxRegression<T>(0.05, 0.1, 1e-9, (Z)1, (Z)12, (Z)50, S("sgd"), S("l2"), true, false), cls); return "softmax regression (l2)";
      case 14: bayes(naive_bayes::GaussianNB<T>(1e-3)); return "gaussian naive Bayes";
      case 15: bayes(naive_bayes::MultinomialNB<T>(0.5)); return "multinomial naive Bayes";
      case 16: { decomposition::PCA<T> m("svd", 1); decomp(m); put(o, m.get_covariance()); put(o, m.get_precision()); o.push_back(m.score(Q)); return "PCA"; }
      case 17: decomp(decomposition::TruncatedSVD<T>((Z)1, (Z)0, (Z)2, S("randomized"), S("QR"))); return "truncated SVD";
      case 18: { decision_tree::DecisionTreeClassifier<T> m; m.fit(X, cls); put(o, m.predict(Q)); put(o, m.predict_prob(Q)); return "classification tree"; }
      case 19: { decision_tree::DecisionTreeClassifier<T> m("entropy", 3, 1, 3, 1e-7); m.fit(X, cls); put(o, m.predict(Q)); put(o, m.predict_prob(Q)); return "classification tree (entropy)"; }
      case 20: { decision_tree::DecisionTreeRegressor<T> m; m.fit(X, real); put(o, m.predict(Q)); return "regression tree"; }
      case 21: { decision_tree::DecisionTreeRegressor<T> m("absolute_error", 2, 1, 3, 1e-7, 1e-3); m.fit(X, real); put(o, m.predict(Q)); return "regression tree (absolute_error)"; }
      case 22: { neighbors::KNearestNeighbors<T> m(2, 3, "kdtree", "euclidean"); m.fit(X, cls); put(o, m.predict(Q)); return "k-d tree kNN"; }
      case 23: { neighbors::KNearestNeighbors<T> m(2, 1, "brute", "manhattan"); m.fit(X, cls); put(o, m.predict(Q)); return "brute kNN"; }
      case 24: { cluster::KMeans<T> m("random", 1, 2, 50, 1e-4); m.fit(X); put(o, m.predict(Q)); return "k-means (random)"; }
      case 25: { cluster::KMeans<T> m; m.fit(X); put(o, m.predict(Q)); return "k-means++"; }
      case 26: mixture(mixture_model::GaussianMixture<T>((Z)50, (Z)1, (Z)2, S("random"), S("full"), 1e3, 1e-1)); return "gaussian mixture";
      case 27: mixture(mixture_model::GaussianMixture<T>((Z)50, (Z)1, (Z)2, S("random"), S("tied"), 1e3, 1e-1)); return "gaussian mixture (tied)";
      case 28: mixture(mixture_model::GaussianMixture<T>((Z)50, (Z)1, (Z)3, S("random"), S("full"), 1e3, 5e-1)); return "gaussian mixture (3 components)";
      case 29: bayes(naive_bayes::GaussianNB<T>()); return "gaussian naive Bayes (default)";
      case 30: proba(SoftmaxRegression<T>(), cls); return "softmax regression (default)";
      default: return "";  } }
};
static const char* const N[] = {"singular values", "pseudo-inverse and factorisations", "statistics", "softmax, mode and impurities", "sorting and lists", "splits and random numbers", "losses", "metrics", "k-d tree", "SGD", "SAG, truncated gradient and SCD", "L-BFGS"};
// the four translation units: the part (estimators, core functions) and the element type they instantiate
S estimators_double(int v, const Data& d, Out& o); S estimators_float(int v, const Data& d, Out& o); S core_double(int k, const Data& d, Out& o); S core_float(int k, const Data& d, Out& o);
}
