// Every fitted object of the library behind one interface (C39, C40).
#pragma once
#include "core.hpp"
#include "core/loss/huber_loss.hpp"
#include "methods/cluster/kmeans.hpp"
#include "methods/decomposition/pca.hpp"
#include "methods/decomposition/truncated_svd.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
#include "methods/rule_model/apriori.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
namespace models {
typedef std::string S; typedef std::size_t Z;
struct Data { Mat X; Vec bin, cls, real; std::vector<std::vector<Z>> T; };
// four data sets of different shapes; non-negative so that counts are valid
inline Data data_set(int k);
// 4-8 have the shape of set 0: other values, other targets, one value changed, the rows reversed, only the last row changed; 9 is larger
inline Data variant(int k) { Data d = data_set(0), o = data_set(3); long n = d.X.rows(); auto t = [&](Data& e, long r, long s) { e.X.row(r) = o.X.row(s); e.real(r) = o.real(s); e.T[r] = o.T[s]; }; if (k == 4) { for (long i = 0; i < n; ++i) t(d, i, i + 2); d.bin.reverseInPlace(); d.cls.reverseInPlace(); } else if (k == 5) { d.bin.reverseInPlace(); d.cls.reverseInPlace(); d.real.reverseInPlace(); for (long i = 0; i < n; ++i) d.T[i] = o.T[i]; } else if (k == 6) { d.X(3, 1) += 0.75; d.real(3) -= 0.5; d.T[3] = o.T[4]; } else if (k == 7) { Data e = d; d.X = e.X.colwise().reverse(); d.bin.reverseInPlace(); d.cls.reverseInPlace(); d.real.reverseInPlace(); std::reverse(d.T.begin(), d.T.end()); } else { t(d, n - 1, 0); d.cls(n - 1) = 1 - d.cls(n - 1); d.bin(n - 1) = 1 - d.bin(n - 1); } return d; }
inline Data data_set(int k) { if (k >= 4 && k < 9) return variant(k); static const int N[] = {6, 9, 7, 8, 0, 0, 0, 0, 0, 40}, F[] = {2, 1, 3, 2, 0, 0, 0, 0, 0, 3}; Data d; int n = N[k], f = F[k]; d.X.resize(n, f); d.bin.resize(n); d.cls.resize(n); d.real.resize(n); for (int i = 0; i < n; ++i) { int c = (i * (k + 1) + i / 2) % 2, c3 = (i * (k + 2)) % (2 + k % 2); d.bin(i) = i == 0 ? 0 : i == 1 ? 1 : c; d.cls(i) = i < 2 + k % 2 ? i : c3; for (int j = 0; j < f; ++j) d.X(i, j) = 0.4 + ((i * (3 + 2 * j + k) + j * j) % 7) + 2.5 * d.cls(i) * (j == 0) + 0.13 * i; d.real(i) = 1.5 * d.X(i, 0) - 0.7 * d.X(i, f - 1) * k + ((i * i) % 5) * 0.3 - k; std::vector<Z> t; for (int j = 0; j < 5; ++j) if ((i * (j + 2) + k * j + i / 2) % 3) t.push_back(j * 2 + k % 2); d.T.push_back(t); } return d; }
inline Mat queries(int k) { Data d = data_set(k); long n = d.X.rows(), f = d.X.cols(); Mat Q(6, f); Q.row(0) = d.X.row(0); Q.row(1) = d.X.row(n - 1); Q.row(2) = d.X.row(n / 2).array() + 0.317; for (long j = 0; j < f; ++j) { Q(3, j) = 11.3 + j; Q(4, j) = 0.0711 * (j + 1); Q(5, j) = 2.913 + 1.37 * j; } return Q; }
struct Model {
  std::function<Model*(const Model&)> cloner;
  std::unique_ptr<Model> clone() const { return std::unique_ptr<Model>(cloner ? cloner(*this) : nullptr); } // null: not copyable
  virtual ~Model() {}
  virtual void fit(const Data& d) = 0;
  virtual Mat rows(const Mat& Q) = 0;            // all per-sample answers, one row per sample
  virtual std::vector<double> state() { return {}; } // everything else that is readable
  virtual bool per_row() const { return true; }
};
inline void put(std::vector<double>& s, const Mat& m) { s.push_back(m.rows()); s.push_back(m.cols()); for (long i = 0; i < m.size(); ++i) s.push_back(m.data()[i]); }
inline Mat beside(std::vector<Mat> m) { long c = 0, r = m[0].rows(); for (auto& x : m) { MC_CHECK(x.rows() == r, "answers with different numbers of rows"); c += x.cols(); } Mat o(r, c); c = 0; for (auto& x : m) { o.middleCols(c, x.cols()) = x; c += x.cols(); } return o; }
enum Target { REAL, BIN, CLS };
template <class M> struct Holder : Model { M m; template <class... A> explicit Holder(A... a) : m(a...) {} };
template <class M, Target T> struct Linear : Holder<M> { using Holder<M>::Holder; void fit(const Data& d) { Mat X = d.X; Vec y = T == REAL ? d.real : T == BIN ? d.bin : d.cls; this->m.fit(X, y); MC_CHECK(X == d.X && y == (T == REAL ? d.real : T == BIN ? d.bin : d.cls), "fitting modified its data"); X.setConstant(1e9); y.setConstant(-1e9); } Mat rows(const Mat& Q) { return this->m.predict(Q); } std::vector<double> state() { std::vector<double> s; put(s, this->m.get_coef()); return s; } };
typedef linear_model::LogisticRegression<double> LogR; typedef linear_model::SoftmaxRegression<double> SoftR;
struct Logistic : Linear<LogR, BIN> { using Linear<LogR, BIN>::Linear; Mat rows(const Mat& Q) { return beside({m.predict(Q), m.predict_prob(Q)}); } };
struct Softmax : Linear<SoftR, CLS> { using Linear<SoftR, CLS>::Linear; Mat rows(const Mat& Q) { return beside({m.predict(Q), m.predict_prob(Q)}); } };
template <class M> struct Bayes : Holder<M> { using Holder<M>::Holder; void fit(const Data& d) { Mat X = d.X; Vec y = d.cls; this->m.fit(X, y); MC_CHECK(X == d.X && y == d.cls, "fitting modified its data"); X.setConstant(1e9); y.setConstant(1); } Mat rows(const Mat& Q) { return beside({this->m.predict(Q), this->m.predict_prob(Q), this->m.predict_log_prob(Q)}); } std::vector<double> state() { std::vector<double> s; put(s, this->m.get_prior_prob()); put(s, this->m.get_classes()); more(s, this->m); return s; }
  static void more(std::vector<double>& s, naive_bayes::GaussianNB<double>& m) { put(s, m.get_mean()); put(s, m.get_var()); } static void more(std::vector<double>& s, naive_bayes::MultinomialNB<double>& m) { put(s, m.get_features_count()); } };
template <class M> struct Decomp : Holder<M> { using Holder<M>::Holder; void fit(const Data& d) { Mat X = d.X; this->m.fit(X); MC_CHECK(X == d.X, "fitting modified its data"); X.setConstant(1e9); } Mat rows(const Mat& Q) { return this->m.transform(Q); } std::vector<double> state() { std::vector<double> s; put(s, this->m.get_components()); put(s, this->m.get_explained_var()); put(s, this->m.get_explained_var_ratio()); put(s, this->m.get_singular_values()); more(s, this->m); return s; }
  static void more(std::vector<double>& s, decomposition::PCA<double>& m) { put(s, m.get_covariance()); put(s, m.get_precision()); } static void more(std::vector<double>&, decomposition::TruncatedSVD<double>&) {} };
typedef decision_tree::DecisionTreeClassifier<double> DTC; typedef decision_tree::DecisionTreeRegressor<double> DTR;
struct TreeC : Holder<DTC> { using Holder<DTC>::Holder; void fit(const Data& d) { Mat X = d.X; Vec y = d.cls; m.fit(X, y); MC_CHECK(X == d.X && y == d.cls, "fitting modified its data"); X.setConstant(1e9); y.setConstant(9); } Mat rows(const Mat& Q) { return beside({m.predict(Q), m.predict_prob(Q)}); } };
struct TreeR : Holder<DTR> { using Holder<DTR>::Holder; void fit(const Data& d) { Mat X = d.X; Vec y = d.real; m.fit(X, y); MC_CHECK(X == d.X && y == d.real, "fitting modified its data"); X.setConstant(1e9); y.setConstant(9); } Mat rows(const Mat& Q) { return m.predict(Q); } };
typedef neighbors::KNearestNeighbors<double> KNN;
struct Knn : Holder<KNN> { using Holder<KNN>::Holder; void fit(const Data& d) { Mat X = d.X; Vec y = d.cls; m.fit(X, y); MC_CHECK(X == d.X && y == d.cls, "fitting modified its data"); X.setConstant(1e9); y.setConstant(9); } Mat rows(const Mat& Q) { return m.predict(Q); } };
typedef cluster::KMeans<double> KM; typedef mixture_model::GaussianMixture<double> GM;
struct Kmeans : Holder<KM> { using Holder<KM>::Holder; void fit(const Data& d) { Mat X = d.X; m.fit(X); MC_CHECK(X == d.X, "fitting modified its data"); X.setConstant(1e9); } Mat rows(const Mat& Q) { return m.predict(Q); } };
struct Mixture : Holder<GM> { using Holder<GM>::Holder; void fit(const Data& d) { Mat X = d.X; m.fit(X); MC_CHECK(X == d.X, "fitting modified its data"); X.setConstant(1e9); } Mat rows(const Mat& Q) { return beside({m.predict(Q), m.predict_prob(Q)}); } std::vector<double> state() { std::vector<double> s; put(s, m.get_means()); put(s, m.get_weights()); s.push_back(m.get_lower_bound()); for (auto& v : {m.get_covariance(), m.get_precisions(), m.get_precisions_cholesky()}) { s.push_back(v.size()); for (auto& c : v) put(s, c); } return s; } };
typedef rule_model::Apriori<Z> AP;
struct Rules : Holder<AP> { using Holder<AP>::Holder; bool per_row() const { return false; } void fit(const Data& d) { auto T = d.T; m.fit_transform(T); MC_CHECK(T == d.T, "fitting modified its data"); } Mat rows(const Mat& Q) { return Mat::Zero(Q.rows(), 1); } std::vector<double> state() { std::set<std::vector<double>> o; for (auto& r : m.get_rules()) { std::vector<double> v; for (Z i : std::get<0>(r)) v.push_back(i); v.push_back(-1); for (Z i : std::get<1>(r)) v.push_back(i); v.push_back(std::get<2>(r)); o.insert(v); } std::vector<double> s = {(double)m.get_rules().size()}; for (auto& v : o) s.insert(s.end(), v.begin(), v.end()); return s; } };
template <class T> T* cloneable(T* p) { if constexpr (std::is_copy_constructible<decltype(p->m)>::value) p->cloner = [](const Model& m) -> Model* { return new T(static_cast<const T&>(m)); }; return p; }
const int COUNT = 31;
inline std::unique_ptr<Model> make(int v, S& name) {
#define MODEL(i, label, ...) case i: name = label; return std::unique_ptr<Model>(cloneable(new __VA_ARGS__));
  switch (v) {
    MODEL(0, "linear regression", Linear<linear_model::LinearRegression<double>, REAL>())
    MODEL(1, "linear regression without intercept", Linear<linear_model::LinearRegression<double>, REAL>(false))
    MODEL(2, "ridge regression", Linear<linear_model::RidgeRegression<double>, REAL>())
    MODEL(3, "ridge regression without intercept", Linear<linear_model::RidgeRegression<double>, REAL>(2.0, false))
    MODEL(4, "lasso", Linear<linear_model::LassoRegression<double>, REAL>((Z)300, 0.05, 120.0, false, false, true))
    MODEL(5, "lasso without intercept", Linear<linear_model::LassoRegression<double>, REAL>((Z)200, 0.2, 120.0, true, false, false))
    MODEL(6, "logistic regression (sag)", Logistic(0.05, 0.01, 1e-4, (Z)1, (Z)60, (Z)5, S("sag"), S("l2"), true, false))
    MODEL(7, "logistic regression (sgd)", Logistic(0.1, 0.0, 1e-4, (Z)2, (Z)60, (Z)5, S("sgd"), S("None"), true, false))
    MODEL(8, "logistic regression (scd)", Logistic(0.05, 40.0, (Z)200, S("scd"), S("l1"), true, false))
    MODEL(9, "logistic regression (lbfgs)", Logistic(1e-5, 1e-4, 1e-9, 0.9, (Z)25, (Z)5, (Z)3, (Z)40, S("lbfgs"), S("None"), S("backtracking"), S("ARMIJO"), true, false))
    MODEL(10, "perceptron", Linear<linear_model::Perceptron<double>, BIN>(0.1, 0.0, 1e-2, (Z)2, (Z)80, (Z)3, S("None"), true, true, false))
    MODEL(11, "perceptron without intercept", Linear<linear_model::Perceptron<double>, BIN>(0.05, 0.1, 1e-2, (Z)1, (Z)80, (Z)3, S("l2"), false, true, false))
    MODEL(12, "softmax regression", Softmax(0.1, 0.0, 1e-3, (Z)2, (Z)60, (Z)4, S("sgd"), S("None"), true, false))
    MODEL(13, "softmax regression (l2)", Softmax(0.05, 0.1, 1e-3, (Z)1, (Z)60, (Z)4, S("sgd"), S("l2"), true, false))
    MODEL(14, "gaussian naive Bayes", Bayes<naive_bayes::GaussianNB<double>>(1e-3))
    MODEL(15, "multinomial naive Bayes", Bayes<naive_bayes::MultinomialNB<double>>(0.5))
    MODEL(16, "PCA", Decomp<decomposition::PCA<double>>(S("svd"), (Z)1))
    MODEL(17, "truncated SVD", Decomp<decomposition::TruncatedSVD<double>>((Z)1, (Z)0, (Z)2, S("randomized"), S("QR")))
    MODEL(18, "classification tree", TreeC())
    MODEL(19, "classification tree (entropy)", TreeC(S("entropy"), (Z)3, (Z)1, (Z)3, 1e-7))
    MODEL(20, "regression tree", TreeR())
    MODEL(21, "regression tree (absolute_error)", TreeR(S("absolute_error"), (Z)2, (Z)1, (Z)3, 1e-7, 1e-3))
    MODEL(22, "k-d tree kNN", Knn((Z)2, (Z)3, S("kdtree"), S("euclidean")))
    MODEL(23, "brute kNN", Knn((Z)2, (Z)2, S("brute"), S("manhattan")))
    MODEL(24, "k-means (random)", Kmeans(S("random"), (Z)1, (Z)3, (Z)50, 1e-4))
    MODEL(25, "k-means++", Kmeans())
    MODEL(26, "gaussian mixture", Mixture((Z)100, (Z)1, (Z)2, S("random"), S("full"), 1e-2, 1e-2))
    MODEL(27, "gaussian mixture (tied)", Mixture((Z)100, (Z)2, (Z)2, S("random"), S("tied"), 1e-2, 1e-2))
    MODEL(28, "apriori", Rules(0.3, 0.5))
    MODEL(29, "gaussian naive Bayes (default)", Bayes<naive_bayes::GaussianNB<double>>())
    MODEL(30, "softmax regression (default)", Softmax())
  }
#undef MODEL
  mc::fail("no such model");
}
// fit, reporting whether it was rejected
inline bool fitted(Model& m, const Data& d, S& why) { try { m.fit(d); return true; } catch (const mc::EigenAssert& e) { mc::fail(std::string("aborts: ") + e.what()); } catch (const std::exception& e) { why = e.what(); return false; } }
}
