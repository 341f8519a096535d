// flags: -O1
// debug: off
//# every named option of every estimator (solver, metric, criterion, initialisation, covariance type, penalty, normaliser, line search), 26 options in all, each with every name of a pool of about 300: all names any option knows, and each of them misspelt (case, missing, extra, doubled and padded characters, the empty name) x 4 data sets; known names are accepted, all others refused with an exception
//# numbers of neighbours, clusters, components and leaf sizes from 0 to n+2 for every supported option x 4 data sets; every constructor of logistic regression x every solver x every penalty on memory filled in three ways; penalty names x three coefficients for logistic, softmax regression and the perceptron
//! an unknown line-search condition means the strong Wolfe condition (every name but ARMIJO and WOLFE); the normaliser is read only when there are power iterations, a criterion only when a split is tried
//# default objects in a third kind of memory (huge numbers) and on targets that differ by less than the default least deviation of the regression tree
//# epoch budgets 1..5003 and patience around them for sgd and sag logistic regression, softmax regression and the perceptron: training reports a failure exactly when the budget ends before the patience; batch sizes up to 70000
#include "models.hpp"
#include "core/tree/kd_tree.hpp"
using namespace openml; using namespace models;
namespace {
typedef std::set<S> Names; const double BIG = 1e9;
// 0: accepted, 1: refused; anything but a proper exception is a violation
int refused(const S& h, const std::function<void()>& f) { int r = 0; try { f(); } catch (const mc::EigenAssert& e) { MC_CHECK(false, h << ": not refused, runs into " << e.what()); } catch (const std::exception&) { r = 1; } mc::step(); return r; }
typedef linear_model::Perceptron<double> Perc; typedef decision_tree::DecisionTreeClassifier<double> CTree; typedef decision_tree::DecisionTreeRegressor<double> RTree; typedef neighbors::KNearestNeighbors<double> NN; typedef decomposition::PCA<double> Pca; typedef decomposition::TruncatedSVD<double> Tsvd;
struct Option { const char* what; Names ok; std::function<void(const S&, const Data&)> use; };
Vec first_two(const Vec& y) { Vec r(y.size()); for (long i = 0; i < y.size(); ++i) r(i) = i % 2; return r; }
void answers(const Vec& l, long n) { if (l.size() != n) throw mc::EigenAssert("a wrong number of answers"); if (!mc::finite(l)) throw mc::EigenAssert("an answer that is not a number"); }
LogR lr(const S& solver, const S& pen) { return LogR(0.1, 0.5, BIG, (Z)2, (Z)10, (Z)1, solver, pen, true, false); }
LogR scd(const S& solver, const S& pen) { return LogR(0.1, 4.0, (Z)10, solver, pen, true, false); }
LogR lb(const S& solver, const S& pen, const S& pol, const S& cond) { return LogR(1e-3, 1e-4, 1e-3, 0.9, (Z)10, (Z)4, (Z)1, (Z)20, solver, pen, pol, cond, true, false); }
const std::vector<Option>& options() { static const std::vector<Option> o = {
  {"kNN solver", {"kdtree", "brute"}, [](const S& s, const Data& d) { NN m(2, 2, s, "euclidean"); m.fit(d.X, d.cls); answers(m.predict(d.X), d.X.rows()); }},
  {"k-d tree kNN metric", {"euclidean", "manhattan", "chebyshev"}, [](const S& s, const Data& d) { NN m(2, 2, "kdtree", s); m.fit(d.X, d.cls); answers(m.predict(d.X), d.X.rows()); }},
  {"brute kNN metric", {"euclidean", "manhattan"}, [](const S& s, const Data& d) { NN m(2, 2, "brute", s); m.fit(d.X, d.cls); answers(m.predict(d.X), d.X.rows()); }},
  {"k-d tree metric", {"euclidean", "manhattan", "chebyshev"}, [](const S& s, const Data& d) { tree::KDTree<double> t(d.X, 2, s); auto r = t.query(d.X, 1); answers(r.first.col(0), d.X.rows()); if (r.first.cwiseAbs().maxCoeff() > 0) throw mc::EigenAssert("a sample is not its own neighbour"); }},
  {"k-means initialisation", {"random", "kmeans++"}, [](const S& s, const Data& d) { KM m(s, 1, 2, 10, 1e-4); m.fit(d.X); answers(m.predict(d.X), d.X.rows()); }},
  {"PCA solver", {"svd"}, [](const S& s, const Data& d) { Pca m(s, 1); m.fit(d.X); answers(m.transform(d.X).col(0), d.X.rows()); }},
  {"truncated SVD solver", {"randomized"}, [](const S& s, const Data& d) { Tsvd m(1, 0, 2, s, "QR"); m.fit(d.X); answers(m.transform(d.X).col(0), d.X.rows()); }},
  {"truncated SVD normaliser", {"LU", "QR", "None"}, [](const S& s, const Data& d) { Tsvd m(1, 0, 1, "randomized", s); m.fit(d.X); answers(m.transform(d.X).col(0), d.X.rows()); }},
  {"randomised SVD normaliser", {"LU", "QR", "None"}, [](const S& s, const Data& d) { Mat U, Vt; Vec v; std::tie(U, v, Vt) = math::randomized_svd<Mat, Vec, IVec>(d.X, 1, 0, 3, s, false); answers(U.col(0), d.X.rows()); }},
  {"mixture initialisation", {"random"}, [](const S& s, const Data& d) { GM m(5, 1, 2, s, "full", BIG, 0.1); m.fit(d.X); answers(m.predict(d.X), d.X.rows()); }},
  {"mixture covariance type", {"full", "tied"}, [](const S& s, const Data& d) { GM m(5, 1, 2, "random", s, BIG, 0.1); m.fit(d.X); answers(m.predict(d.X), d.X.rows()); }},
  {"classification tree criterion", {"gini", "entropy"}, [](const S& s, const Data& d) { CTree m(s, 2, 1, 3, 0.0); m.fit(d.X, d.cls); answers(m.predict(d.X), d.X.rows()); }},
  {"regression tree criterion", {"squared_error", "absolute_error"}, [](const S& s, const Data& d) { RTree m(s, 2, 1, 3, 0.0, 0.0); m.fit(d.X, d.real); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic solver (l2)", {"sgd", "sag", "lbfgs"}, [](const S& s, const Data& d) { LogR m = lr(s, "l2"); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic solver (no penalty)", {"sgd", "sag", "lbfgs"}, [](const S& s, const Data& d) { LogR m = lb(s, "None", "backtracking", "WOLFE"); if (s != "lbfgs") m = lr(s, "None"); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic solver (l1)", {"scd"}, [](const S& s, const Data& d) { LogR m = scd(s, "l1"); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic penalty (sgd)", {"l2", "None"}, [](const S& s, const Data& d) { LogR m = lr("sgd", s); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic penalty (sag)", {"l2", "None"}, [](const S& s, const Data& d) { LogR m = lr("sag", s); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic penalty (lbfgs)", {"l2", "None"}, [](const S& s, const Data& d) { LogR m = lb("lbfgs", s, "bracketing", "ARMIJO"); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"logistic penalty (scd)", {"l1"}, [](const S& s, const Data& d) { LogR m = scd("scd", s); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"line search policy", {"backtracking", "bracketing"}, [](const S& s, const Data& d) { LogR m = lb("lbfgs", "None", s, "WOLFE"); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
  {"softmax solver", {"sgd"}, [](const S& s, const Data& d) { SoftR m(0.1, 0.5, BIG, (Z)2, (Z)10, (Z)1, s, "l2", true, false); m.fit(d.X, d.cls); answers(m.predict(d.X), d.X.rows()); }},
  {"softmax penalty", {"l2", "None"}, [](const S& s, const Data& d) { SoftR m(0.1, 0.5, BIG, (Z)2, (Z)10, (Z)1, "sgd", s, true, false); m.fit(d.X, d.cls); answers(m.predict(d.X), d.X.rows()); }},
  {"perceptron penalty", {"l2", "None"}, [](const S& s, const Data& d) { Perc m(0.1, 0.5, BIG, (Z)2, (Z)10, (Z)1, s, true, true, false); m.fit(d.X, d.bin); answers(m.predict(d.X), d.X.rows()); }},
}; return o; }
const std::vector<S>& pool() { static std::vector<S> p; if (p.empty()) { Names n; for (auto& o : options()) n.insert(o.ok.begin(), o.ok.end()); for (const char* s : {"ARMIJO", "WOLFE", "kmeans", "cosine", "minkowski", "l0", "none", "NONE", "elasticnet", "auto", "diag", "spherical", "mse", "mae", "full", "0", "2"}) n.insert(s); Names a = n; for (S s : n) { S u = s, v = s; for (char& c : u) c = std::toupper(c); for (char& c : v) c = std::tolower(c); a.insert(u); a.insert(v); u = s; u[0] = std::isupper(u[0]) ? std::tolower(u[0]) : std::toupper(u[0]); a.insert(u); a.insert(s.substr(0, s.size() - 1)); a.insert(s.substr(1)); a.insert(s + " "); a.insert(" " + s); a.insert(s + s.back()); a.insert(s + S(1, '\0')); a.insert(s + s); } a.insert(""); p.assign(a.begin(), a.end()); } return p; }
S quoted(const S& s) { S r = "'"; for (char c : s) r += c ? S(1, c) : S("\\0"); return r + "'"; }
}
MC_SCENARIO(names, 3) { int o = mc::choose(options().size(), "option"), k = mc::choose(4, "data"), p = mc::choose(pool().size(), "name"); const Option& op = options()[o]; const S& s = pool()[p]; mc::state(o, k, p); Data d = data_set(k); S h = op.what + S(" ") + quoted(s) + " on data set " + std::to_string(k); MC_LOG(h); mc::env_stream(1 + o); int want = !op.ok.count(s), got = refused(h, [&] { op.use(s, d); }); MC_CHECK(want == got, h << (want ? ": accepted, though there is no such option" : ": refused, though it is supported")); mc::validated(); }
MC_SCENARIO(counts, 3) { static const char* W[] = {"kNN (k-d tree)", "kNN (brute)", "k-means (random)", "k-means (kmeans++)", "PCA", "truncated SVD", "mixture (full)", "mixture (tied)", "k-d tree leaf size", "kNN leaf size"}; int w = mc::choose(10, "what"), k = mc::choose(4, "data"); Data d = data_set(k); long n = d.X.rows(), f = d.X.cols(), c = mc::choose(n + 3, "count"), most = w == 4 || w == 5 ? std::min(n, f) : w >= 8 ? n + 3 : n; if (w == 4 || w == 5) if (!c) mc::prune(); mc::state(w, k, c); S h = W[w] + S(" with ") + std::to_string(c) + " on " + std::to_string(n) + "x" + std::to_string(f) + " data"; MC_LOG(h); mc::env_stream(1 + c);
  int got = refused(h, [&] { switch (w) { case 0: case 1: { NN m(2, c, w ? "brute" : "kdtree", "manhattan"); m.fit(d.X, d.cls); answers(m.predict(d.X), n); break; } case 2: case 3: { KM m(w == 2 ? "random" : "kmeans++", 1, c, 10, 1e-4); m.fit(d.X); Vec l = m.predict(d.X); answers(l, n); if (l.maxCoeff() >= c) throw mc::EigenAssert("a label beyond the clusters"); break; } case 4: { Pca m("svd", c); m.fit(d.X); Mat t = m.transform(d.X); if (t.cols() != c) throw mc::EigenAssert("a wrong number of components"); break; } case 5: { Tsvd m(c, 0, 2, "randomized", "QR"); m.fit(d.X); Mat t = m.transform(d.X); if (t.cols() != c) throw mc::EigenAssert("a wrong number of components"); break; } case 6: case 7: { GM m(5, 1, c, "random", w == 6 ? "full" : "tied", BIG, 0.5); m.fit(d.X); answers(m.predict(d.X), n); break; } case 8: { tree::KDTree<double> t(d.X, c, "euclidean"); answers(t.query(d.X, 2).first.col(1), n); break; } case 9: { NN m(c, 2, "kdtree", "chebyshev"); m.fit(d.X, d.cls); answers(m.predict(d.X), n); break; } } });
  int want = c < 1 || c > most; MC_CHECK(want == got, h << (want ? ": accepted" : ": refused")); mc::validated(); }
// what no constructor argument sets may not come from the memory the object happens to lie in
MC_SCENARIO(constructors, 3) { static const char* SO[] = {"sgd", "sag", "lbfgs", "scd"}; static const char* PE[] = {"None", "l2", "l1"}; int c = mc::choose(4, "constructor"), s = mc::choose(c ? 4 : 1, "solver"), p = mc::choose(c ? 3 : 1, "penalty"), k = mc::choose(4, "data"); mc::state(c, s, p, k); Data d = data_set(k); bool known = s == 3 ? p == 2 : p < 2; S h = c ? "logistic regression (constructor " + std::to_string(c) + ", " + SO[s] + ", " + PE[p] + ") on data set " + std::to_string(k) : "default logistic regression"; MC_LOG(h);
  Mat got[3]; S why[3]; static const unsigned char FILL[] = {0, 0xA5, 0x7F}; for (int i = 0; i < 3; ++i) { std::unique_ptr<mc::Dirty<LogR>> m; S so = SO[s], pe = PE[p]; if (c == 0) m.reset(new mc::Dirty<LogR>(FILL[i])); if (c == 1) m.reset(new mc::Dirty<LogR>(FILL[i], 0.1, 0.5, BIG, (Z)2, (Z)30, (Z)1, so, pe, true, false)); if (c == 2) m.reset(new mc::Dirty<LogR>(FILL[i], 0.1, 4.0, (Z)500, so, pe, true, false)); if (c == 3) m.reset(new mc::Dirty<LogR>(FILL[i], 1e-2, 1e-4, 1e-3, 0.9, (Z)400, (Z)4, (Z)1, (Z)20, so, pe, S("backtracking"), S("WOLFE"), true, false)); mc::env_stream(5); try { (*m)->fit(d.X, d.bin); got[i] = (*m)->get_coef(); Mat q = (*m)->predict_prob(d.X); MC_CHECK(mc::finite(got[i]) && mc::finite(q), h << ": coefficients " << mc::str(got[i])); } catch (const mc::EigenAssert& e) { MC_CHECK(false, h << ": runs into " << e.what()); } catch (const std::exception& e) { why[i] = e.what(); } mc::step(); if (i) MC_CHECK(why[i] == why[0] && got[i].size() == got[0].size() && got[i] == got[0], h << " depends on what the memory held before: " << (why[i] == "" ? mc::str(got[i]) : why[i]) << " or " << (why[0] == "" ? mc::str(got[0]) : why[0])); }
  if (c) { if (!known) MC_CHECK(why[0] != "", h << ": accepted"); else MC_CHECK(why[0] == "" || why[0].find("onverge") != S::npos, h << ": refused: " << why[0]); if (known && c != 2 && s != 2) MC_CHECK(why[0] == "", h << ": " << why[0]); } mc::validated(); }
// no penalty means that its coefficient is not used, and a penalty that it is
MC_SCENARIO(penalties, 3) { static const char* W[] = {"sgd logistic regression", "sag logistic regression", "softmax regression", "perceptron"}; int w = mc::choose(4, "model"), k = mc::choose(4, "data"), b = 1 + mc::choose(3, "batch"); mc::state(w, k, b); Data d = data_set(k); auto fit = [&](const S& pe, double lam) { mc::env_stream(7); mc::step(); if (w < 2) { LogR m(0.05, lam, BIG, (Z)b, (Z)10, (Z)1, w ? "sag" : "sgd", pe, true, false); m.fit(d.X, d.bin); return Mat(m.get_coef()); } if (w == 2) { SoftR m(0.05, lam, BIG, (Z)b, (Z)10, (Z)1, "sgd", pe, true, false); m.fit(d.X, d.cls); return Mat(m.get_coef()); } Perc m(0.05, lam, BIG, (Z)b, (Z)10, (Z)1, pe, true, true, false); m.fit(d.X, d.bin); return Mat(m.get_coef()); };
  S h = W[w] + S(" with batches of ") + std::to_string(b) + " on data set " + std::to_string(k); MC_LOG(h); Mat none = fit("None", 0), zero = fit("l2", 0); MC_CHECK(none == zero, h << ": no penalty gives " << mc::str(none) << " and an l2 penalty of zero " << mc::str(zero)); for (double lam : {0.25, 3.0}) { Mat a = fit("None", lam), c = fit("l2", lam); MC_CHECK(a == none, h << ": without a penalty the coefficient " << lam << " changes the result from " << mc::str(none) << " to " << mc::str(a)); MC_CHECK(c != none, h << ": the l2 penalty " << lam << " has no effect"); } mc::validated(3); }
// a default object is the one built with the documented defaults
namespace { template <class M, class F, class... A> void same_as(const S& h, F ask, A... a) { Mat r[4]; S why[4]; for (int i = 0; i < 4; ++i) { std::unique_ptr<mc::Dirty<M>> m; if (i < 3) m.reset(new mc::Dirty<M>(i == 2 ? 0x7F : i ? 0xA5 : 0x3C)); else m.reset(new mc::Dirty<M>(0, a...)); mc::env_stream(3); mc::step(); try { r[i] = ask(**m); } catch (const std::exception& e) { why[i] = e.what(); } if (i) MC_CHECK(why[i] == why[0] && r[i].rows() == r[0].rows() && r[i].cols() == r[0].cols() && r[i] == r[0], h << ": a default object gives " << (why[0] == "" ? mc::str(r[0]) : why[0]) << (i < 3 ? " or " : ", one built with the default values ") << (why[i] == "" ? mc::str(r[i]) : why[i])); } mc::validated(); } }
MC_SCENARIO(defaults, 2) { static const char* W[] = {"logistic regression", "softmax regression", "perceptron", "ridge regression", "lasso regression", "linear regression", "PCA", "truncated SVD", "k-means", "gaussian mixture", "multinomial naive Bayes", "kNN", "Apriori", "classification tree", "regression tree", "k-d tree"}; int w = mc::choose(16, "model"), k = mc::choose(mc::thorough() ? 7 : 4, "data"); if (!mc::thorough() && k == 3) k = 6; mc::state(w, k); Data d = data_set(9), q = d; long n = d.X.rows(), f = d.X.cols(); if (k % 3 == 1) { d.X = q.X.colwise().reverse() * 0.5; } if (k % 3 == 2) { d.X.conservativeResize(n, f + 2); for (long i = 0; i < n; ++i) { d.X(i, f) = (i * 7 % 11) / 2.0; d.X(i, f + 1) = i % 5; } } if (k >= 3) for (long i = 0; i < n; ++i) { d.real(i) += (i % 3) * 0.7; d.bin(i) = (i * 5 / 3) % 2; d.cls(i) = (i / 4) % 3; } if (k == 6) for (long i = 0; i < n; ++i) d.real(i) = (i / 8) + (i % 2) * 0.0016; S h = W[w] + S(" on data ") + std::to_string(k); MC_LOG(h); const Mat& X = d.X; auto lin = [&](auto& m, const Vec& y) { m.fit(X, y); return Mat(m.get_coef()); };
  switch (w) { case 0: same_as<LogR>(h, [&](LogR& m) { return lin(m, d.bin); }, 0.1, 0.0, 1e-4, (Z)16, (Z)2000, (Z)5, S("sag"), S("None"), true, true); break; case 1: same_as<SoftR>(h, [&](SoftR& m) { return lin(m, d.cls); }, 0.01, 0.0, 1e-4, (Z)4, (Z)2000, (Z)5, S("sgd"), S("None"), true, true); break; case 2: same_as<Perc>(h, [&](Perc& m) { return lin(m, d.bin); }, 0.001, 0.0, 1e-4, (Z)32, (Z)2000, (Z)5, S("l2"), true, true, true); break;
  case 3: { typedef linear_model::RidgeRegression<double> M; same_as<M>(h, [&](M& m) { m.fit(X, d.real); return Mat(m.predict(X)); }, 0.5, true); break; } case 4: { typedef linear_model::LassoRegression<double> M; same_as<M>(h, [&](M& m) { return lin(m, d.real); }, (Z)5000, 0.001, 1.0, true, true, true); break; } case 5: { typedef linear_model::LinearRegression<double> M; same_as<M>(h, [&](M& m) { m.fit(X, d.real); return Mat(m.predict(X)); }, true); break; }
  case 6: same_as<Pca>(h, [&](Pca& m) { m.fit(X); return m.transform(X); }, S("svd"), (Z)2); break; case 7: same_as<Tsvd>(h, [&](Tsvd& m) { Mat A(n, X.cols() + 3); A.leftCols(X.cols()) = X; A.rightCols(3) = X.leftCols(3).array().square(); m.fit(A); return m.transform(A); }, (Z)2, (Z)2, (Z)4, S("randomized"), S("LU")); break;
  case 8: same_as<KM>(h, [&](KM& m) { m.fit(X); return Mat(m.predict(X)); }, S("kmeans++"), (Z)10, (Z)3, (Z)300, 1e-4); break; case 9: same_as<GM>(h, [&](GM& m) { m.fit(X); return m.predict_prob(X); }, (Z)100, (Z)1, (Z)3, S("random"), S("full"), 1e-3, 1e-6); break;
  case 10: { typedef naive_bayes::MultinomialNB<double> M; same_as<M>(h, [&](M& m) { Mat C = X.array().abs().ceil(); m.fit(C, d.cls); return m.predict_prob(C); }, 10.0); break; } case 11: same_as<NN>(h, [&](NN& m) { m.fit(X, d.cls); return Mat(m.predict(X)); }, (Z)10, (Z)15, S("kdtree"), S("euclidean")); break;
  case 12: same_as<AP>(h, [&](AP& m) { std::vector<std::vector<Z>> T; for (int i = 0; i < 66 - k; ++i) { T.push_back({(Z)(i % 3)}); if (i % 4 < 2) T.back().push_back(3 + k); if (i < 2) T.back().push_back(9); if (i % 8 == 1) T.back().push_back(10); } m.fit_transform(T); std::set<std::vector<double>> o; for (auto& r : m.get_rules()) { std::vector<double> v; for (Z i : std::get<0>(r)) v.push_back(i); v.push_back(-1); for (Z i : std::get<1>(r)) v.push_back(i); v.push_back(std::get<2>(r)); o.insert(v); } std::vector<double> a; for (auto& v : o) a.insert(a.end(), v.begin(), v.end()); Mat r(1, a.size()); for (std::size_t i = 0; i < a.size(); ++i) r(0, i) = a[i]; return r; }, 0.03, 0.5); break; case 13: same_as<CTree>(h, [&](CTree& m) { m.fit(X, d.cls); return m.predict_prob(X); }, S("gini"), (Z)2, (Z)0, (Z)4, 1e-7); break; case 14: same_as<RTree>(h, [&](RTree& m) { m.fit(X, d.real); return Mat(m.predict(X)); }, S("squared_error"), (Z)2, (Z)0, (Z)4, 1e-7, 1e-3); break;
  case 15: { tree::KDTree<double> a(X), b(X, 10, "euclidean"); auto u = a.query(X, 5), v = b.query(X, 5); mc::step(4); MC_CHECK(u.first == v.first && u.second == v.second, h << ": a default tree answers differently"); mc::validated(); break; } } }
MC_SCENARIO(limits, 3) { static const char* W[] = {"sgd logistic regression", "sag logistic regression", "softmax regression", "perceptron"}; static const long PA[] = {1, 2, 7, 100, 254, 255, 256, 300, 999, 1000, 1001, 2000, 5001}, B[] = {1, 2, 300, 70000}; int w = mc::choose(4, "model"), k = mc::choose(3, "data"), v = mc::choose(5, "budget"); long p = mc::pick(PA, "patience"), b = mc::pick(B, "batch"), e = v == 0 ? 1 : v == 1 ? p : v == 2 ? p + 1 : v == 3 ? p + 2 : 100000; if (p > 300 && b == 1 && v == 1 && k) mc::prune(); mc::state(w, k, p, b, e); Data d = data_set(k);
  S h = W[w] + S(" with ") + std::to_string(e) + " epochs, patience " + std::to_string(p) + ", batches of " + std::to_string(b) + " on data set " + std::to_string(k); MC_LOG(h); mc::env_stream(3); bool t = mc::throws([&] { if (w < 2) { LogR m(1e-3, 0.1, BIG, (Z)b, (Z)e, (Z)p, w ? "sag" : "sgd", "l2", true, false); m.fit(d.X, d.bin); } else if (w == 2) { SoftR m(1e-3, 0.1, BIG, (Z)b, (Z)e, (Z)p, "sgd", "l2", true, false); m.fit(d.X, d.cls); } else { Perc m(1e-3, 0.1, BIG, (Z)b, (Z)e, (Z)p, "l2", true, true, false); m.fit(d.X, d.bin); } }); mc::step();
  MC_CHECK(t == (e <= p), h << (t ? ": reports that it did not converge" : ": ends before the loss has failed to improve that often")); mc::validated(); }
