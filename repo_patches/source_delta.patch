From 4704d3a19bf9d2e55ce95eed17d58d92b4557882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 01/93] fix: argsort started from an index vector that is out
 of range for one or two elements

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From d9dabb225d77b28de40208fa392388fbb081cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 02/93] fix: vector argsort wrote past the end of an empty
 result

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..fd35575 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -819,7 +819,7 @@ const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reve
     }
     
     for (int i = 0; i < combine.size(); ++i) {
-        indices[i] = combine[i].second;
+        indices.push_back(combine[i].second);
     }
 
     return indices;
-- 
2.43.0


From 3e767bb5f8d2c1d14610c17bd92bd6be3b94d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 03/93] fix: list slices checked bounds against the wrong
 dimension and read past the end

---
 src/core/common.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index fd35575..a4f225b 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -842,14 +842,14 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    if (end_col < start_col || end_col >= x[start_row].size()) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
@@ -880,7 +880,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -890,7 +890,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From 4b2625d7791d300039ca1d3c335f63786f9083b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 04/93] fix: is_equal read past the end of the shorter list

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index a4f225b..f861e0a 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From 433844a63d38495e3e9be815d71548f543495bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 05/93] fix: sortrows comparator had no result for equal rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index f861e0a..2c1b233 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From 24a3c76be42d66ac2992a21c7af304a820a2a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 06/93] fix: unique returned positions in its sorted copy
 instead of the input

---
 src/core/common.hpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 2c1b233..4fc5877 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -414,25 +414,15 @@ std::tuple<VecType, VecType> unique(const VecType& x){
     std::vector<DataType> stdvec_index;
     std::vector<DataType> stdvec_value;
 
-    // convert the input vector to std vector
-    std::vector<DataType>  stdvec_x;
+    // the first position of every distinct value, ordered by value
+    std::map<DataType, std::size_t> hash_map;
     for (std::size_t i = 0; i < x.rows(); i++) {
-        stdvec_x.push_back(x(i, 0));
+        hash_map.insert(std::make_pair(x(i, 0), i));
     }
-
-    std::sort(stdvec_x.begin(), stdvec_x.end());
-    auto first = std::begin(stdvec_x), last = std::end(stdvec_x);
-    std::set<std::size_t> hash_set;
-    std::map<DataType, std::size_t> hash_map;
-    for(std::size_t i = 0; first != last; ++i, ++first){
-        auto iter_pair = hash_map.insert(std::make_pair(*first, i));
-        if(iter_pair.second){
-            stdvec_value.push_back(iter_pair.first->first);
-            hash_set.insert(iter_pair.first->second);
-            hash_set.insert(i);
-        }
+    for (const auto& item : hash_map) {
+        stdvec_value.push_back(item.first);
+        stdvec_index.push_back(static_cast<DataType>(item.second));
     }
-    stdvec_index = {hash_set.begin(), hash_set.end()};
 
     VecType retvec_value = Eigen::Map<VecType>(stdvec_value.data(), stdvec_value.size(), 1);
     VecType retvec_index = Eigen::Map<VecType>(stdvec_index.data(), stdvec_index.size(), 1);
-- 
2.43.0


From bb7f4c8b0415b01b01697df519dec53408a2b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 07/93] fix: loadtxt accepted empty, ragged and non-numeric
 files and kept stale labels

---
 src/core/data/load.hpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..50b849d 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -31,9 +31,20 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (!str_stream.eof()) {
+            throw std::runtime_error("Input file contains a field that is not a number.");
+        }
         stdmat.push_back(row);
     }
 
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
+    for (const auto& row : stdmat) {
+        if (row.empty() || row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file contains rows of different lengths.");
+        }
+    }
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
     MatType mat(n_rows, n_cols);
@@ -61,6 +72,9 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (!str_stream.eof()) {
+            throw std::runtime_error("Input file contains a field that is not a number.");
+        }
         X.push_back(row);
     }
 };
@@ -88,11 +102,23 @@ void loadtxt(const std::string &fp,
         for (DataType elem; str_stream >> elem; ) {
             row.push_back(elem);
         }
+        if (!str_stream.eof()) {
+            throw std::runtime_error("Input file contains a field that is not a number.");
+        }
         stdmat.push_back(row);
     }
 
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
+    for (const auto& row : stdmat) {
+        if (row.empty() || row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file contains rows of different lengths.");
+        }
+    }
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
-    X.resize(nrows, std::vector<DataType>(ncols - 1));
+    X.assign(nrows, std::vector<DataType>(ncols - 1));
+    y.clear();
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
             X[i][j] = stdmat[i][j];
-- 
2.43.0


From e14a40cd4183e61ff40a9af7814d910e96f05a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 08/93] fix: variance lost all precision (or went negative) for
 data with a large common offset

---
 src/core/math/ops.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 7aef730..878346f 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -37,27 +37,18 @@ AnyType cov(const AnyType& x) {
 */
 template<typename MatType>
 MatType var(const MatType& x, int axis = -1) {
-    MatType copy_x = x;
-    // Var(X)=E[X^2]-(E[X])^2
+    // Var(X)=E[(X-E[X])^2]
     if (axis == 0) {
-        auto colmean = copy_x.colwise().mean();                                      
-        auto x_squared_mean = copy_x.array().square().colwise().mean();
-        auto colvar = x_squared_mean.array() - colmean.array().square();
-
-        return colvar; 
+        MatType centered = x.rowwise() - x.colwise().mean();
+        return centered.array().square().colwise().mean();
     }
     else if (axis == 1) {
-        auto rowmean = copy_x.rowwise().mean();
-        auto x_squared_mean = copy_x.array().square().rowwise().mean();
-        auto rowvar = x_squared_mean.array() - rowmean.array().square();
-
-        return rowvar;
+        MatType centered = x.colwise() - x.rowwise().mean();
+        return centered.array().square().rowwise().mean();
     }
     else if (axis == -1) {
-        auto mean = copy_x.mean();
-        auto x_squared_mean = copy_x.array().square().mean();
         MatType var(1, 1);
-        var(0, 0) = x_squared_mean - std::pow(mean, 2);
+        var(0, 0) = (x.array() - x.mean()).square().mean();
         return var;
     }
     else {
-- 
2.43.0


From dc133bea863869a3b05bfc44708bb34960d5f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 09/93] fix: softmax refused a single sample or a single class

---
 src/core/math/extmath.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..080fd41 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -234,10 +234,6 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
-        throw std::invalid_argument("Input ndarray should be 2 dimension");
-    }
-
     MatType c, div, retval;
     if (axis == 0) {
         c = x.colwise().maxCoeff().colwise().replicate(nrows);
-- 
2.43.0


From 9bee484e44780a4e2025e8e61807b88cc5261485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 10/93] fix: entropy was NaN when a class has zero weight

---
 src/core/math/extmath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 080fd41..c8a80c1 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -143,7 +143,9 @@ double entropy(const VecType& x,
         double p_i = 1.0 * static_cast<double>(x_count->second) * 
             mean / static_cast<double>(nrows);
 
-        ent += (-p_i) * std::log2(p_i);
+        if (p_i > 0.0) {
+            ent += (-p_i) * std::log2(p_i);
+        }
     }
     return ent;
 };
-- 
2.43.0


From 50e10aa71f989e3a7f403f02d761ff4584c76d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 11/93] fix: lu dropped the column permutation and inverted the
 row permutation, so P*L*U was not the input

---
 src/core/math/linalg.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..5b6d599 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,19 +25,28 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
+    // gaussian elimination with row pivoting, x = P * L * U
+    MatType lu_m = x;
+    MatType P = MatType::Identity(nrows, nrows);
+    for (std::size_t k = 0; k < min_size; ++k) {
+        Eigen::Index pivot;
+        lu_m.col(k).tail(nrows - k).cwiseAbs().maxCoeff(&pivot);
+        pivot += k;
+        lu_m.row(k).swap(lu_m.row(pivot));
+        P.col(k).swap(P.col(pivot));
+        if (lu_m(k, k) != 0) {
+            lu_m.col(k).tail(nrows - k - 1) /= lu_m(k, k);
+            lu_m.bottomRightCorner(nrows - k - 1, ncols - k - 1) -= 
+                lu_m.col(k).tail(nrows - k - 1) * lu_m.row(k).tail(ncols - k - 1);
+        }
+    }
 
-    MatType lu_m = lu_decomposition.matrixLU();
     // L is (M, min(M, N))
-    MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
-    L = L.leftCols(min_size).eval();
+    MatType L = lu_m.leftCols(min_size).template triangularView<Eigen::UnitLower>();
 
-    // U is (min(M, N), K)
-    MatType U = lu_m.template triangularView<Eigen::Upper>();
-    U = U.topRows(min_size).eval();
+    // U is (min(M, N), N)
+    MatType U = lu_m.topRows(min_size).template triangularView<Eigen::Upper>();
 
-    MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From 80010430916e63aa13fe5f083d8b8d7c05fbbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 12/93] fix: randomized_svd aborted in the sign flip whenever k
 + p is below the number of columns

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 5b6d599..7eec4e9 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -202,7 +202,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From efc55327a5d5217499322a6182d9fdf506deb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 13/93] fix: eig assigned complex values to a real matrix and
 did not compile

---
 src/core/math/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 7eec4e9..b6962f6 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -365,8 +365,8 @@ std::tuple<MatType, MatType> eig(const MatType& x) {
     }
 
     MatType vals, vecs;
-    vals = eigs.eigenvalues().template cast<DataType>();
-    vecs = eigs.eigenvectors();
+    vals = eigs.eigenvalues().real();
+    vecs = eigs.eigenvectors().real();
 
     return std::make_tuple(vals, vecs);
 }
-- 
2.43.0


From 0a97fc69936554273d5269f6b23180bb1c7ac8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 14/93] fix: PCA centred new data with its own mean instead of
 the training mean

---
 src/methods/decomposition/pca.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..ecee9f4 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,13 +28,15 @@ private:
 
     std::string solver_;
     double noise_var_;
+    MatType mean_;
 
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        mean_ = X.colwise().mean();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = center_data(X);
         
         MatType components;
         VecType explained_var;
@@ -69,11 +71,16 @@ protected:
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
     }
 
+    /** subtract the mean of the training data */
+    const MatType center_data(const MatType& X) const {
+        return X - mean_.replicate(X.rows(), 1);
+    }
+
     /** transform the new data */
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = center_data(X);
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -147,7 +154,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = center_data(X);
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From 261d6d98746f8c52aa64d3c06889cc1e9c885d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 15/93] fix: PCA score and precision used an empty or stale
 precision matrix unless the getters ran first

---
 src/methods/decomposition/pca.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index ecee9f4..b9b218c 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -69,6 +69,10 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        // the score and the precision both depend on these
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** subtract the mean of the training data */
-- 
2.43.0


From 2b5563f6e4b1520315ee0f492bf8a27a1a23afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 16/93] fix: hinge loss gradient accumulated into uninitialised
 memory

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From 8a31ec9a5a97a4ee5ad80d2d6a5f99aee1a47a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 17/93] fix: log loss was NaN or infinite as soon as one sample
 saturated the sigmoid

---
 src/core/loss/log_loss.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/core/loss/log_loss.hpp b/src/core/loss/log_loss.hpp
index 30dc204..d43b0b0 100644
--- a/src/core/loss/log_loss.hpp
+++ b/src/core/loss/log_loss.hpp
@@ -36,16 +36,13 @@ public:
         std::size_t num_samples = X.rows();
 
         VecType X_w(num_samples); 
-        VecType y_hat(num_samples); 
         X_w = X * W;
-        y_hat = math::sigmoid<VecType>(X_w);
 
-        VecType tmp1 = static_cast<DataType>(-1) * y.array() * 
-            y_hat.array().log();
-        VecType tmp2 = (static_cast<DataType>(1) - y.array()) * 
-            (static_cast<DataType>(1) - y_hat.array()).log();
-        VecType tmp3 = tmp1 - tmp2;
-        double loss = static_cast<double>(tmp3.array().sum()) /
+        // -y * log(sigmoid(z)) - (1 - y) * log(1 - sigmoid(z)) written so
+        // that a saturated sigmoid does not yield log(0)
+        VecType tmp = X_w.array().max(static_cast<DataType>(0)) - y.array() * X_w.array() + 
+            (-X_w.array().abs()).exp().log1p();
+        double loss = static_cast<double>(tmp.array().sum()) /
             static_cast<double>(num_samples);
 
         double reg = static_cast<double>(W.transpose() * W) / 
-- 
2.43.0


From 2447a5e14cc1194debdf18fef725454c941324dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 18/93] fix: softmax loss penalty summed every entry of W'W,
 not the squared norm its gradient belongs to

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..d6ec9f8 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -56,7 +56,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = static_cast<double>(W.array().square().sum()) / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From b686c8bf06604d778299b466c4b85e9fe1088fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 19/93] fix: softmax loss and gradient were NaN or infinite for
 samples far below the global maximum

---
 src/core/loss/softmax_loss.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index d6ec9f8..2f65d0b 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -40,19 +40,19 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
+        VecType max_xw = xw.rowwise().maxCoeff();
+        xw.colwise() -= max_xw;
+        MatType exp_xw = xw.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
 
         std::size_t index;
-        VecType exp_xw_i(num_samples);
+        VecType xw_i(num_samples);
         for (int i = 0; i < num_samples; ++i) {
             index = static_cast<std::size_t>(y(i, 0));
-            exp_xw_i(i, 0) = exp_xw(i, index);
+            xw_i(i, 0) = xw(i, index);
         }
 
-        auto tmp2 = exp_xw_i.array() / sum_exp_xw.array();
-        double loss = -tmp2.array().log().sum();
+        double loss = (sum_exp_xw.array().log() - xw_i.array()).sum();
 
         loss /= static_cast<double>(num_samples);
 
@@ -78,8 +78,9 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
-        MatType exp_xw = tmp1.array().exp();
+        VecType max_xw = xw.rowwise().maxCoeff();
+        xw.colwise() -= max_xw;
+        MatType exp_xw = xw.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
         MatType normalized_exp_xw = exp_xw.array().colwise() / sum_exp_xw.array();
 
-- 
2.43.0


From e0ed59ebd101543eff99a8469ccf93016a16a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 20/93] fix: Huber loss used the norm of all residuals instead
 of each one, and its gradient did not compile

---
 src/core/loss/huber_loss.hpp | 38 +++++++++++++++---------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/core/loss/huber_loss.hpp b/src/core/loss/huber_loss.hpp
index 8527b9c..627e60f 100644
--- a/src/core/loss/huber_loss.hpp
+++ b/src/core/loss/huber_loss.hpp
@@ -39,17 +39,17 @@ public:
         X_w = X * W; 
 
         double loss = 0.0;
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            loss = 0.5 * condition;
-        }
-        else {
-            auto tmp = (y - X_w).array() - 0.5 * delta_;
-            auto norm = tmp.array().abs().colwise().sum().maxCoeff();
-            loss = delta_ * static_cast<double>(norm);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double diff = std::abs(static_cast<double>(y(i, 0) - X_w(i, 0)));
+            if (diff <= delta_) {
+                loss += 0.5 * diff * diff;
+            }
+            else {
+                loss += delta_ * diff - 0.5 * delta_ * delta_;
+            }
         }
 
-        // loss = loss / static_cast<double>(num_samples);
+        loss = loss / static_cast<double>(num_samples);
         double reg = static_cast<double>(W.transpose() * W) / 
             (static_cast<double>(num_samples) * 2.0);
 
@@ -57,10 +57,11 @@ public:
     };
 
     /**
-     * Evaluate the gradient of the hinge loss objective function with the given 
+     * Evaluate the gradient of the huber loss objective function with the given 
      * parameters
      * 
-     *      dw = y_i*w*x > 1 : 0 ? -y_i*x
+     *      dw = x * (X_w - y)                  if |y - X_w| <= delta
+     *           x * delta * sign(X_w - y)      else
     */
     const VecType gradient(const MatType& X, 
         const VecType& y,
@@ -72,17 +73,10 @@ public:
         VecType X_w(num_samples);
         X_w = X * W;
 
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            auto tmp = X.transpose() * (X_w - y);
-            grad = tmp.array() / num_samples;
-        }
-        else {
-            // grad = self.delta *np.dot(X.T, np.sign(np.dot(X,self.w) - y))/ y.shape[0]
-            auto tmp = X.transpose() * (X_w - y).array().sign();
-            grad = tmp.array() * (delta_ / num_samples);
-        }
-        
+        // the residual, clipped to [-delta, delta]
+        VecType diff = (X_w - y).array()
+            .max(static_cast<DataType>(-delta_)).min(static_cast<DataType>(delta_));
+        grad = (X.transpose() * diff) / static_cast<DataType>(num_samples);
 
         VecType reg(num_features);
         reg = W.array() / static_cast<DataType>(num_samples);
-- 
2.43.0


From f264cceb6dbc7548a974063bde7c19aaeacc38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 21/93] fix: explained variance score lost all precision for
 targets with a large common offset

---
 src/core/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index 66f13a9..0d47d9b 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -39,8 +39,8 @@ double explained_variance_score(const VecType& y_true,
     // auto retval = 1.0 -  static_cast<double>(y_diff_var / y_var);
 
     VecType y_diff = y_pred - y_true;
-    auto y_diff_var = y_diff.array().square().mean() - std::pow(y_diff.mean(), 2);
-    auto y_var = y_true.array().square().mean() - std::pow(y_true.mean(), 2);
+    auto y_diff_var = (y_diff.array() - y_diff.mean()).square().mean();
+    auto y_var = (y_true.array() - y_true.mean()).square().mean();
     return 1.0 - static_cast<double>(y_diff_var / y_var);
 };
 
-- 
2.43.0


From 8ce59e81ab75c85320279860f07d4eb43003bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 22/93] fix: euclidean and manhattan distance read past the end
 of a shorter second vector

---
 src/core/metric.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index 0d47d9b..ad99a35 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -49,6 +49,12 @@ double explained_variance_score(const VecType& y_true,
 */
 template <typename DataType>
 double euclidean_distance(const std::vector<DataType>& a, const std::vector<DataType>& b) {
+    if (a.size() != b.size()) {
+        std::ostringstream err_msg;
+        err_msg << "a number of elements " << a.size() << " != " 
+                << "b number of elements " << b.size() << std::endl; 
+        throw std::invalid_argument(err_msg.str());
+    }
     std::vector<DataType> aux;
     std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(aux),
                    [](DataType x1, DataType x2) { return std::pow((x1 - x2), 2); });
@@ -61,6 +67,12 @@ double euclidean_distance(const std::vector<DataType>& a, const std::vector<Data
 */
 template <typename DataType>
 double manhattan_distance(const std::vector<DataType>& a, const std::vector<DataType>& b) {
+    if (a.size() != b.size()) {
+        std::ostringstream err_msg;
+        err_msg << "a number of elements " << a.size() << " != " 
+                << "b number of elements " << b.size() << std::endl; 
+        throw std::invalid_argument(err_msg.str());
+    }
     std::vector<DataType> aux;
     std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(aux),
                    [](DataType x1, DataType x2) { return std::abs(x1 - x2); });
-- 
2.43.0


From b3351074b5b882d43c76eea358cfd7b6f6506bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 23/93] fix: exponential decay made the learning rate grow

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From 96d88e4a90f3b01f3f9739b6d022ac5e2fa8497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 24/93] fix: momentum update forgot its velocity after every
 step

---
 src/core/optimizer/sgd/sag.hpp                       |  4 +++-
 src/core/optimizer/sgd/sgd.hpp                       |  4 +++-
 src/core/optimizer/sgd/tg.hpp                        |  4 +++-
 .../sgd/update_policies/momentum_update.hpp          | 12 +++++++-----
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 5c0e700..1860d6b 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -51,6 +51,8 @@ public:
         std::size_t num_batch = num_samples / this->batch_size_;
         std::size_t no_improvement_count = 0;
         
+        // the velocity of an update policy belongs to one optimization
+        UpdatePolicyType w_update = this->w_update_;
         bool is_converged = false;
         double best_loss = ConstType<double>::infinity();
 
@@ -85,7 +87,7 @@ public:
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-                this->x0_ = this->w_update_.update(this->x0_, avg_grad, lr);
+                this->x0_ = w_update.update(this->x0_, avg_grad, lr);
                 double loss = this->loss_func_.evaluate(X_batch, y_batch, this->x0_);
 
                 loss_history(j, 0) = loss;
diff --git a/src/core/optimizer/sgd/sgd.hpp b/src/core/optimizer/sgd/sgd.hpp
index 620e5dc..9eb4e62 100644
--- a/src/core/optimizer/sgd/sgd.hpp
+++ b/src/core/optimizer/sgd/sgd.hpp
@@ -54,6 +54,8 @@ public:
         std::size_t num_batch = num_samples / this->batch_size_;
         std::size_t no_improvement_count = 0;
 
+        // the velocity of an update policy belongs to one optimization
+        UpdatePolicyType w_update = this->w_update_;
         bool is_converged = false;
         double best_loss = ConstType<double>::infinity();
         
@@ -88,7 +90,7 @@ public:
                 // clip gradient with large value 
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
                 // W = W - lr * grad; 
-                this->x0_ = this->w_update_.update(this->x0_, grad, lr);
+                this->x0_ = w_update.update(this->x0_, grad, lr);
                 double loss = this->loss_func_.evaluate(X_batch, y_batch, this->x0_);
                 loss_history(j, 0) = loss;
             }
diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 44572cc..c17899e 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -85,6 +85,8 @@ public:
         std::size_t num_batch = num_samples / this->batch_size_;
         std::size_t no_improvement_count = 0;
 
+        // the velocity of an update policy belongs to one optimization
+        UpdatePolicyType w_update = this->w_update_;
         bool is_converged = false;
         double best_loss = ConstType<double>::infinity();
         DataType max_cum_l1 = 0.0;
@@ -115,7 +117,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // W = W - lr * grad; 
-                this->x0_ = this->w_update_.update(this->x0_, grad, lr);
+                this->x0_ = w_update.update(this->x0_, grad, lr);
 
                 max_cum_l1 += static_cast<DataType>(l1_ratio_) * 
                     static_cast<DataType>(lr) * static_cast<DataType>(alpha_);
diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..43f1b23 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,7 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    MatType V_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -23,12 +24,13 @@ public:
     */
     const MatType update(const MatType& W, 
         const MatType& grad, 
-        const double lr) const{
+        const double lr) {
         std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_.setZero(num_features, num_classes);
+        }
+        V_ = V_ * mu_ + grad * lr;
+        MatType updated_W = W - V_;
         return updated_W;
     };
 
-- 
2.43.0


From 8d6915a1f447cf8c721330df78a42cdaa15dd7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 25/93] fix: Nesterov update did not compile and kept no
 velocity

---
 .../nesterov_momentum_update.hpp              | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
index 7026a00..ffb3e11 100644
--- a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
@@ -13,6 +13,7 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     DataType mu;
+    MatType V_;
 
 public:
     NesterovMomentumUpdate(const DataType mu_): mu(mu_) {};
@@ -21,17 +22,14 @@ public:
     /**
      * SGD with Nesterov Momentum optimization method
     */
-    const MatType update(const MatType& W, const MatType& grad, const double lr) const {
-        std::size_t nrows = W.rows();
-        MatType V(nrows);
-        V.setZero();
-        
-        MatType prev_V(nrows);
-        prev_V = V;
-
-        V = mu * V + static_cast<DataType>(lr) * grad;
-        V = V + mu * (V - prev_V);
-        MatType updated_W = W - V;
+    const MatType update(const MatType& W, const MatType& grad, const double lr) {
+        if (V_.rows() != W.rows() || V_.cols() != W.cols()) {
+            V_.setZero(W.rows(), W.cols());
+        }
+        MatType prev_V = V_;
+
+        V_ = mu * V_ + static_cast<DataType>(lr) * grad;
+        MatType updated_W = W - (V_ + mu * (V_ - prev_V));
         return updated_W;
     };
 
-- 
2.43.0


From f7967c05fa2fcfb50c1882774a2312d3a5593487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 26/93] fix: optimizers and line searches are deleted through
 bases without a virtual destructor

---
 src/core/optimizer/base.hpp                       | 2 +-
 src/core/optimizer/lbfgs/search_policies/base.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 72456d6..5170d4b 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -88,7 +88,7 @@ public:
             shuffle_(shuffle),
             verbose_(verbose) {};
     
-    ~BaseOptimizer() {};
+    virtual ~BaseOptimizer() {};
 
     virtual void optimize(const MatType& X, 
         const VecType& y) = 0;
diff --git a/src/core/optimizer/lbfgs/search_policies/base.hpp b/src/core/optimizer/lbfgs/search_policies/base.hpp
index 3299e20..51ed83f 100644
--- a/src/core/optimizer/lbfgs/search_policies/base.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/base.hpp
@@ -31,7 +31,7 @@ public:
             loss_func_(loss_func), 
             linesearch_params_(linesearch_params) {};
 
-    ~BaseLineSearch() {};
+    virtual ~BaseLineSearch() {};
 
     virtual int search(VecType& x, 
         double& fx, 
-- 
2.43.0


From b7923d48c536d619c54a9f799832a6284512566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 27/93] fix: SGD, SAG and truncated gradient reported
 convergence without any training when the batch size exceeds the sample count

---
 src/core/optimizer/sgd/sag.hpp | 20 +++++++++++---------
 src/core/optimizer/sgd/sgd.hpp | 18 ++++++++++--------
 src/core/optimizer/sgd/tg.hpp  | 18 ++++++++++--------
 3 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 1860d6b..8911796 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -48,7 +48,9 @@ public:
     void optimize(const MatType& X, 
         const VecType& y) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
-        std::size_t num_batch = num_samples / this->batch_size_;
+        // fewer samples than the batch size make up one batch
+        std::size_t batch_size = std::max<std::size_t>(1, std::min(this->batch_size_, num_samples));
+        std::size_t num_batch = num_samples / batch_size;
         std::size_t no_improvement_count = 0;
         
         // the velocity of an update policy belongs to one optimization
@@ -68,22 +70,22 @@ public:
             if (this->shuffle_) {
                 random::shuffle_data<MatType, VecType>(X_new, y_new, X_new, y_new);
             }
-            MatType X_batch(this->batch_size_, num_features);
-            VecType y_batch(this->batch_size_);
+            MatType X_batch(batch_size, num_features);
+            VecType y_batch(batch_size);
             VecType loss_history(num_batch);
 
             double lr = this->lr_decay_.compute(iter);
 
             for (std::size_t j = 0; j < num_batch; j++) {
-                std::size_t begin = j * this->batch_size_;
-                X_batch = X_new.middleRows(begin, this->batch_size_);
-                y_batch = y_new.middleRows(begin, this->batch_size_);
+                std::size_t begin = j * batch_size;
+                X_batch = X_new.middleRows(begin, batch_size);
+                y_batch = y_new.middleRows(begin, batch_size);
 
                 grad = this->loss_func_.gradient(X_batch, y_batch, this->x0_);
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(this->batch_size_));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(batch_size));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
@@ -94,7 +96,7 @@ public:
             }
             double sum_loss = static_cast<double>(loss_history.array().sum());
 
-            if (sum_loss > best_loss - this->tol_ * this->batch_size_) {
+            if (sum_loss > best_loss - this->tol_ * batch_size) {
                 no_improvement_count +=1;
             }
             else {
@@ -114,7 +116,7 @@ public:
             if (this->verbose_) {
                 if ((iter % 2) == 0) {
                     std::cout << "-- Epoch = " << iter << ", average loss value = " 
-                              << sum_loss / static_cast<double>(this->batch_size_) << std::endl;
+                              << sum_loss / static_cast<double>(batch_size) << std::endl;
                 }
             }
         }
diff --git a/src/core/optimizer/sgd/sgd.hpp b/src/core/optimizer/sgd/sgd.hpp
index 9eb4e62..c86a8f8 100644
--- a/src/core/optimizer/sgd/sgd.hpp
+++ b/src/core/optimizer/sgd/sgd.hpp
@@ -51,7 +51,9 @@ public:
         const VecType& y) {
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
-        std::size_t num_batch = num_samples / this->batch_size_;
+        // fewer samples than the batch size make up one batch
+        std::size_t batch_size = std::max<std::size_t>(1, std::min(this->batch_size_, num_samples));
+        std::size_t num_batch = num_samples / batch_size;
         std::size_t no_improvement_count = 0;
 
         // the velocity of an update policy belongs to one optimization
@@ -75,16 +77,16 @@ public:
             if (this->shuffle_) {
                 random::shuffle_data<MatType, VecType>(X_new, y_new, X_new, y_new);
             }
-            MatType X_batch(this->batch_size_, num_features);
-            VecType y_batch(this->batch_size_);
+            MatType X_batch(batch_size, num_features);
+            VecType y_batch(batch_size);
             VecType loss_history(num_batch);
 
             double lr = this->lr_decay_.compute(iter);
 
             for (std::size_t j = 0; j < num_batch; j++) {
-                std::size_t begin = j * this->batch_size_;
-                X_batch = X_new.middleRows(begin, this->batch_size_);
-                y_batch = y_new.middleRows(begin, this->batch_size_);
+                std::size_t begin = j * batch_size;
+                X_batch = X_new.middleRows(begin, batch_size);
+                y_batch = y_new.middleRows(begin, batch_size);
 
                 grad = this->loss_func_.gradient(X_batch, y_batch, this->x0_);
                 // clip gradient with large value 
@@ -97,7 +99,7 @@ public:
             // compute total loss from one batch
             double sum_loss = static_cast<double>(loss_history.array().sum());
             
-            if (sum_loss > best_loss - this->tol_ * this->batch_size_) {
+            if (sum_loss > best_loss - this->tol_ * batch_size) {
                 no_improvement_count +=1;
             }
             else {
@@ -117,7 +119,7 @@ public:
             if (this->verbose_) {
                 if ((iter % 2) == 0) {
                     std::cout << "-- Epoch = " << iter << ", average loss value = " 
-                              << sum_loss / static_cast<double>(this->batch_size_) << std::endl;
+                              << sum_loss / static_cast<double>(batch_size) << std::endl;
                 }
             }
         }
diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index c17899e..90d34b0 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -82,7 +82,9 @@ public:
         const VecType& y) {
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
-        std::size_t num_batch = num_samples / this->batch_size_;
+        // fewer samples than the batch size make up one batch
+        std::size_t batch_size = std::max<std::size_t>(1, std::min(this->batch_size_, num_samples));
+        std::size_t num_batch = num_samples / batch_size;
         std::size_t no_improvement_count = 0;
 
         // the velocity of an update policy belongs to one optimization
@@ -99,16 +101,16 @@ public:
             if (this->shuffle_) {
                 random::shuffle_data<MatType, VecType>(X_new, y_new, X_new, y_new);
             }
-            MatType X_batch(this->batch_size_, num_features);
-            VecType y_batch(this->batch_size_);
+            MatType X_batch(batch_size, num_features);
+            VecType y_batch(batch_size);
             VecType loss_history(num_batch);
 
             double lr = this->lr_decay_.compute(iter);
 
             for (std::size_t j = 0; j < num_batch; j++) {
-                std::size_t begin = j * this->batch_size_;
-                X_batch = X_new.middleRows(begin, this->batch_size_);
-                y_batch = y_new.middleRows(begin, this->batch_size_);
+                std::size_t begin = j * batch_size;
+                X_batch = X_new.middleRows(begin, batch_size);
+                y_batch = y_new.middleRows(begin, batch_size);
 
                 VecType grad(num_features);
                 grad = this->loss_func_.gradient(X_batch, y_batch, this->x0_);
@@ -130,7 +132,7 @@ public:
 
             double sum_loss = static_cast<double>(loss_history.array().sum());
 
-            if (sum_loss > best_loss - this->tol_ * this->batch_size_) {
+            if (sum_loss > best_loss - this->tol_ * batch_size) {
                 no_improvement_count +=1;
             }
             else {
@@ -150,7 +152,7 @@ public:
             if (this->verbose_) {
                 if ((iter % 2) == 0) {
                     std::cout << "-- Epoch = " << iter << ", average loss value = " 
-                              << sum_loss / static_cast<double>(this->batch_size_) << std::endl;
+                              << sum_loss / static_cast<double>(batch_size) << std::endl;
                 }
             }
         }
-- 
2.43.0


From 881808f2f6fc5d1cdeec1546ec32b8d29aeb03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 28/93] fix: SAG divided the sum of the stored batch gradients
 by the batch size instead of their number

---
 src/core/optimizer/sgd/sag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 8911796..6e0b9c3 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -85,7 +85,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(batch_size));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(num_batch));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-- 
2.43.0


From 93adfa35ff55db1d996c0add9fa34e88eeafe0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 29/93] fix: truncated gradient applied the whole accumulated
 penalty again in every step

---
 src/core/optimizer/sgd/tg.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 90d34b0..6377da7 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -44,7 +44,6 @@ private:
 
             cum_l1(j, 0) += (weight(j, 0) - w_j);
         }
-        cum_l1.setZero();
         return weight;
     }
 
-- 
2.43.0


From a75ffea71820fd9dd1c14f3e8e74516aac650b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 30/93] fix: L-BFGS returned no weights when started at a
 stationary point

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From 9afe03b43e8cf5e1352bc13e836225ecd646e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 31/93] fix: L-BFGS compared the loss with past values it had
 never stored, and divided by zero for past = 0

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..f42306e 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,12 +162,14 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
+            if (past_ > 0 && past_ <= k) {
                 rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
                 if (rate < delta_) {
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
                     break;
                 }
+            }
+            if (past_ > 0) {
                 pfx(k % past_) = fx;
             }
             if ((this->max_iter_ != 0) && (this->max_iter_ < k + 1)) {
-- 
2.43.0


From 7a8c45914b18957863ab9b01a7832bcfd23d4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 32/93] fix: lasso and ridge regression shared an include
 guard, so only one of them could be included

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..48b4a41 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From 484891f954946e1bad542d0c66920eb9015bf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 33/93] fix: lasso trained on the data without the intercept
 column and aborted

---
 src/methods/linear_model/lasso_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 48b4a41..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
-- 
2.43.0


From 66cfc9d03128aa6ea71fdf3a4c61079561f2a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 34/93] fix: perceptron trained on the data without the
 intercept column and aborted

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From 50cd356cef20a170aa24f7df404b1be109b7774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 35/93] fix: perceptron never learned from samples of class 0

---
 src/methods/linear_model/perceptron.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 56f6941..3dbeff4 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -44,7 +44,9 @@ protected:
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
-        VecType y_new = y;
+        // the hinge loss needs the labels as -1 and 1, predict returns 0 and 1
+        VecType y_new = (y.array() > 0).select(VecType::Ones(num_samples), 
+            -VecType::Ones(num_samples));
         
         // if intercept term exists, append a colmun into X
         if (this->intercept_) {
-- 
2.43.0


From 45f9b3909538f2a326a88b5672c95d66adcec735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 36/93] fix: softmax regression trained on the data without the
 intercept column and aborted

---
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..a6bc1ab 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
-- 
2.43.0


From 7ee419e1d17bc1c1b9fcc2076a3b6368439b3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 37/93] fix: softmax regression ignored its intercept in
 predictions

---
 src/methods/linear_model/softmax_regression.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a6bc1ab..08ffc66 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -84,10 +84,8 @@ protected:
         std::size_t num_classes = this->w_.cols();
         MatType boundary(num_samples, num_classes);
         if (this->intercept_) {
-            auto xw = X * this->w_.topRows(num_features);
-            // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
-            auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = X * this->w_.topRows(num_features);
+            boundary.rowwise() += this->w_.row(num_features);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From 96eac67a4ddfa60623629968dad58c8ff653028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 38/93] fix: softmax regression get_coef aborted, its
 coefficients have one column per class

---
 src/methods/linear_model/softmax_regression.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index 08ffc66..c94f464 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -138,6 +138,11 @@ public:
     /**deconstructor*/
     ~SoftmaxRegression() {};
 
+    /**coefficients, one column for each class*/
+    const MatType get_coef() const {
+        return this->w_;
+    };
+
     /**
      * Predict class labels for samples in X.
      * 
-- 
2.43.0


From fb9686407cfe248832d1544bb777e260ed8bfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 39/93] fix: logistic regression predicted the opposite class

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From a9d5ca90feb64e3fb00688f5308e3639569abcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 40/93] fix: logistic regression with lbfgs used an
 uninitialised penalty

---
 src/methods/linear_model/logistic_regression.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..06d1052 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -240,6 +240,7 @@ public:
         bool shuffle = true, 
         bool verbose = true): 
             BaseLinearModel<DataType>(true), 
+            lambda_(0.0), 
             tol_(tol), 
             ftol_(ftol),
             delta_(delta),
-- 
2.43.0


From 0797042c78de1c1ca137e49ef1138a2c77e33c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 41/93] fix: logistic regression added an l2 penalty to the l1
 penalty and for no penalty at all

---
 src/methods/linear_model/logistic_regression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 06d1052..77cbfda 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -57,7 +57,8 @@ protected:
         VecType w(num_features + 1);
         w.setRandom();
         
-        loss::LogLoss<DataType> log_loss(lambda_);
+        // the loss itself only carries the l2 penalty
+        loss::LogLoss<DataType> log_loss(penalty_ == "l2" ? lambda_ : 0.0);
         optimizer::VanillaUpdate<DataType> w_update;
         optimizer::StepDecay<DataType> lr_decay(alpha_);
         
-- 
2.43.0


From 1d65d63b3d405b8e74bb7dac3a79a43fea17103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 42/93] fix: naive Bayes added the class counts of earlier fits
 to the prior

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..0932b5f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From 9dde50916a5e57fe66217383050357430ffbb1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 43/93] fix: naive Bayes predicted the position of the class
 instead of its label

---
 src/methods/naive_bayes/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index 0932b5f..e90669f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -104,7 +104,7 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred = classes_(argmax_jll);
         return y_pred;
     }
 
-- 
2.43.0


From 78422fe23b4cb08af2e24f02aa398d07eb9c3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 44/93] fix: Gaussian naive Bayes aborted when adding the class
 prior to the likelihood

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..4fd3d1d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll.array() + lp.col(i).array();
         }
 
         return jll;
-- 
2.43.0


From 05f54cedcc440ebea5137c0030821813b586a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 45/93] fix: naive Bayes aborted on data with a single feature

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 4fd3d1d..2039dc7 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From 1a7956ce276087c57b10527c3018b514bc8d123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 46/93] fix: Gaussian naive Bayes get_mean and get_var aborted,
 they hold one row per class

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 2039dc7..251c89d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From 49b48ead3834391fe0a894a57ca95d741e503ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 47/93] fix: Gaussian naive Bayes probabilities were NaN when
 no feature varies within any class

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 251c89d..e94d86b 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -115,7 +115,7 @@ public:
         
         this->compute_prior_prob(y);
         this->update_mean_variance(X, y);
-        var_ = var_.array() + var_smoothing_ * var_.maxCoeff();
+        var_ = var_.array() + var_smoothing_ * math::var<MatType>(X, 0).maxCoeff();
     };
 
     /** get the mean attributes */
-- 
2.43.0


From 57bbe958a3ac7994fbeab9e175c1b4ce37496d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 48/93] fix: multinomial naive Bayes assigned a row of counts
 to a column and aborted

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..9696302 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,8 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = 
+                math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From 084e203fb34511dc4fa75c33cd02209526585aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 49/93] fix: decision tree classifier kept the labels of
 earlier fits

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..a4b08c7 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -263,6 +263,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From b456c191a2b1398764005765b3061d2f9d1fd7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 50/93] fix: decision tree classifier predicted the position of
 the class instead of its label

---
 src/methods/tree/decision_tree_classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index a4b08c7..78f9553 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -303,7 +303,8 @@ public:
         
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            // the columns of the probabilities are the sorted labels
+            y_pred_value(i) = std::next(label_count_.begin(), index)->first;
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From c8baf9095126a46ac1cb20f6141cb22ac428ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 51/93] fix: decision trees split off empty nodes for repeated
 feature values

---
 src/methods/tree/base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..ef487aa 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -63,6 +63,11 @@ protected:
                 std::vector<std::size_t> left_index, right_index;
                 std::tie(left_index, right_index) = data::divide_on_feature<MatType>(X, feature_index, threshold);
 
+                // a threshold at the largest value does not split the data
+                if (left_index.empty() || right_index.empty()) {
+                    continue;
+                }
+
                 VecType left_y, right_y;
                 left_y = y(left_index);
                 right_y = y(right_index);
-- 
2.43.0


From 4b322cf6e14e8bd5debf22d0051800074bac035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 52/93] fix: decision tree classifier used the purity of the
 children as impurity decrease for gini

---
 src/methods/tree/decision_tree_classifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 78f9553..da30126 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -93,7 +93,7 @@ protected:
             double right_gini = math::gini<VecType>(right_y);
             double g = static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * left_gini +
                 static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * right_gini;
-            impurity = 1.0 - g;
+            impurity = math::gini<VecType>(y) - g;
         }
         else if (criterion_ == "entropy") {
             double empirical_ent = math::entropy<VecType>(y);
-- 
2.43.0


From 5f0b31e1e327588f4a2d7ae97d7e21cdb4652fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 53/93] fix: decision trees dereferenced a missing child when a
 split violates min_samples_leaf

---
 src/methods/tree/decision_tree_classifier.hpp | 15 ++++++++++-----
 src/methods/tree/decision_tree_regressor.hpp  | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index da30126..feca0fe 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -178,11 +178,6 @@ protected:
             return ;
         }
 
-        cur_node->impurity = best_impurity;
-        cur_node->feature_index = best_feature_index;
-        cur_node->feature_value = best_feature_value;
-        // std::cout << "best_impurity = " << best_impurity << std::endl;
-
         VecType selected_x = X.col(best_feature_index);
         auto tmp1 = (selected_x.array() <= best_feature_value);
         VecType left_selected = tmp1.template cast<DataType>();
@@ -197,6 +192,16 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
+        // a node with only one child cannot route the samples of the other
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
+        }
+
+        cur_node->impurity = best_impurity;
+        cur_node->feature_index = best_feature_index;
+        cur_node->feature_value = best_feature_value;
+        // std::cout << "best_impurity = " << best_impurity << std::endl;
+
         if (left_X.rows() >= min_samples_leaf_) {
             std::shared_ptr<Node> left_child = std::make_shared<Node>();
             cur_node->is_leaf = false;
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..d6531b0 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -182,11 +182,6 @@ protected:
             return ;
         }
 
-        cur_node->impurity = best_impurity;
-        cur_node->feature_index = best_feature_index;
-        cur_node->feature_value = best_feature_value;
-        // std::cout << "best_impurity = " << best_impurity << std::endl;
-
         VecType selected_x = X.col(best_feature_index);
         auto tmp1 = (selected_x.array() <= best_feature_value);
         VecType left_selected = tmp1.template cast<DataType>();
@@ -202,6 +197,16 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
+        // a node with only one child cannot route the samples of the other
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
+        }
+
+        cur_node->impurity = best_impurity;
+        cur_node->feature_index = best_feature_index;
+        cur_node->feature_value = best_feature_value;
+        // std::cout << "best_impurity = " << best_impurity << std::endl;
+
         if (left_X.rows() >= min_samples_leaf_) {
             std::shared_ptr<Node> left_child = std::make_shared<Node>();
             cur_node->is_leaf = false;
-- 
2.43.0


From 28156a59405cea196ff133bc24618462ab4d453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 54/93] fix: decision tree regressor weighted the variances of
 the children by their size, not their share

---
 src/methods/tree/decision_tree_regressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index d6531b0..f7eb059 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
-- 
2.43.0


From 662dcc744aebc14fcedced16c5a0286af566bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 55/93] fix: decision tree regressor aborted for
 absolute_error, whose criterion was no mean absolute error

---
 src/methods/tree/decision_tree_regressor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index f7eb059..e9963e5 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -98,17 +98,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = (static_cast<double>(y_bar_sum.value()) - 
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value())) / static_cast<double>(num_samples);
 
             impurity = mae;
         }
-- 
2.43.0


From 073e925351294fa7ef59cea0d9d4f3045917f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 56/93] fix: decision tree regressor compared min_stdev with
 something other than the standard deviation

---
 src/methods/tree/decision_tree_regressor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index e9963e5..f60ec76 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -130,7 +130,7 @@ protected:
         VecType y_centered = y.array() - y_bar.value();
 
         double stdev_error = std::sqrt(
-            static_cast<double>(y_centered.norm()) / static_cast<double>(num_samples)
+            static_cast<double>(y_centered.squaredNorm()) / static_cast<double>(num_samples)
         );
 
         return std::make_tuple(y_bar.value(), stdev_error); 
-- 
2.43.0


From 5167b702c19dc23e6941d2c844b55319b2954e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 57/93] fix: k-d tree cut the root hyper-rectangle along the
 first column instead of the partition axis

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From 35776f369240745954bee3e6f4295c3cb803a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 58/93] fix: k-d tree radius query lost points exactly at the
 radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From db76c052c8ba5cabb75189b3c19679003caef18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 59/93] fix: k-d tree radius query skipped query points without
 neighbors, shifting the others

---
 src/core/tree/kd_tree.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 6dfc43d..2225f81 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -432,9 +432,8 @@ public:
         for(std::size_t i = 0; i < num_samples; ++i) {
             std::vector<NNType> nn;
             nn = query_radius_single_data(data.row(i), radius);
-            if (!nn.empty()) {
-                knn.emplace_back(nn);
-            }
+            // one list per query point, empty if there are no neighbors
+            knn.emplace_back(nn);
         }
         return knn;
     }
-- 
2.43.0


From 37c5a2d95dca85107ed9802dd4629e2ce95dc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 60/93] fix: nearest-neighbour classifier did not compile

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..8707e32 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -29,13 +29,13 @@ private:
     std::unique_ptr<tree::KDTree<DataType>> tree_;
 
 protected:
-    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& samples) {
+    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& sample) {
         
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
-- 
2.43.0


From 4ac237e5196a023c8445c43028c9dd9141ef5efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 61/93] fix: nearest-neighbour classifier always predicted -1
 with the brute solver

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 8707e32..1a3fbf7 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
-- 
2.43.0


From 175d1d4d897fcf647265d7c383bc4334c5689bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 62/93] fix: nearest-neighbour classifier took the vote over
 the samples instead of the neighbours

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 1a3fbf7..e386d57 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0


From c92cb31d6ea9620a765ec113b121a1d943c479df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 63/93] fix: hash tree repeated the itemsets of earlier calls
 in compute_frequency_itemsets

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From 39d5e07163aafb6a02dd8e2b6a6c16ac80a3d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 64/93] fix: apriori aborted when a level has no frequent
 itemset

---
 src/methods/rule_model/apriori.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..5b955a3 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -162,6 +162,10 @@ protected:
             }
 
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
+            // sortrows rejects an empty list, there are no longer itemsets then
+            if (itemsets_list.empty()) {
+                break;
+            }
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
             ++length;
-- 
2.43.0


From 1ed9668a594fb53edc7743d53b7d90c1ed35d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 65/93] fix: apriori kept the itemsets and rules of earlier
 calls

---
 src/methods/rule_model/apriori.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 5b955a3..ec88a34 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -220,6 +220,8 @@ public:
     };
 
     void fit_transform(const std::vector<std::vector<DataType>>& X) {
+        all_frequency_.clear();
+        association_rules_.clear();
         fit_data(X);
         transform_data();        
     }
-- 
2.43.0


From d2462e88f8739b22a572e4c75360753142aedf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 66/93] fix: apriori lost or double counted itemsets whose
 items are unordered or repeated in a transaction

---
 src/methods/rule_model/apriori.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index ec88a34..2b98c25 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -74,6 +74,8 @@ protected:
             }
         }
 
+        std::sort(records_order.begin(), records_order.end());
+
         preprocessing::TransactionEncoder<std::size_t> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
@@ -222,7 +224,14 @@ public:
     void fit_transform(const std::vector<std::vector<DataType>>& X) {
         all_frequency_.clear();
         association_rules_.clear();
-        fit_data(X);
+        // itemsets are sets: compared in ascending order, each item counted once
+        std::vector<std::vector<DataType>> transactions = X;
+        for (auto& transaction : transactions) {
+            std::sort(transaction.begin(), transaction.end());
+            transaction.erase(std::unique(transaction.begin(), transaction.end()), 
+                transaction.end());
+        }
+        fit_data(transactions);
         transform_data();        
     }
 
-- 
2.43.0


From cb849491fc7ada8ee33bd607f55cf75b0b7b728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 67/93] fix: apriori rounded the minimum support down,
 reporting itemsets below it

---
 src/methods/rule_model/apriori.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 2b98c25..c5e2ee7 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -62,7 +62,10 @@ private:
 
 protected:
     void fit_data(const std::vector<std::vector<DataType>>& X) {    
-        std::size_t support = static_cast<std::size_t>(X.size() * min_support_);
+        // the smallest count whose share of the transactions reaches min_support
+        std::size_t support = static_cast<std::size_t>(
+            std::ceil(X.size() * min_support_ - 1e-9)
+        );
     
         std::vector<DataType> records_order;
         for (std::size_t i = 0; i < X.size(); ++i) {
-- 
2.43.0


From 2fe3a535e25ac1410c9da96e51da6034c789d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 68/93] fix: k-means aborted for data with more than one
 feature, assigning a column to a row

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From d9f75828e9a8de943f7640d086b356193023b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 69/93] fix: gaussian mixture appended the precisions of a new
 fit to those of earlier fits

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..24057c4 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -504,6 +504,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From c6428c4bc490ebebc0e13cc6b3087c2bf29682b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 70/93] fix: gaussian mixture aborted for tied covariances,
 having one determinant for all components

---
 src/methods/mixture/gaussian_mixture.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 24057c4..b3298ea 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -267,6 +267,11 @@ private:
         std::size_t num_components = means.rows();
 
         VecType log_det = compute_log_det_cholesky(precisions_cholesky_);
+        if (covariance_type_ == "tied") {
+            // all components share the one matrix
+            DataType shared_log_det = log_det(0);
+            log_det = VecType::Constant(num_components, shared_log_det);
+        }
 
         MatType log_prob(num_samples, num_components);
 
-- 
2.43.0


From 26d32996244804856abb7acb1974f681d1467c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:17 +0000
Subject: [PATCH 71/93] fix: svd of rank deficient matrices lost orthogonality
 for 16 and more columns

---
 src/core/math/linalg.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index b6962f6..eb6a960 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -127,6 +127,21 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
+
+        // the divide and conquer algorithm may break down on rank 
+        // deficient matrices, fall back on the jacobi rotations
+        const std::size_t rank = s.rows();
+        const double orth_err = std::max(
+            (U.transpose() * U - MatType::Identity(U.cols(), U.cols())).norm(), 
+            (V.transpose() * V - MatType::Identity(V.cols(), V.cols())).norm());
+        const double approx_err = (U.leftCols(rank) * s.asDiagonal() * 
+            V.leftCols(rank).transpose() - x).norm();
+        if (!(orth_err < 1.e-10 && approx_err <= 1.e-10 * x.norm())) {
+            Eigen::JacobiSVD<Eigen::MatrixXd> jacobi_svd(x, options);
+            U = jacobi_svd.matrixU();
+            s = jacobi_svd.singularValues();
+            V = jacobi_svd.matrixV();
+        }
     }
     return std::make_tuple(U, s, V);
 };
-- 
2.43.0


From 724d6ae6f3f95a0b49f679fc02789d6e74232fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:17 +0000
Subject: [PATCH 72/93] fix: pca precision cut off at an absolute value, zero
 for data of a small scale

---
 src/methods/decomposition/pca.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index b9b218c..b98ac6f 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -114,7 +114,9 @@ protected:
 
     /**Compute data precision matrix*/
     void compute_precision_matrix() {
-        this->precision_ = math::pinv<MatType, VecType>(this->covariance_);
+        // the cutoff is relative to the scale of the data
+        const double tol = 1.e-12 * this->covariance_.cwiseAbs().maxCoeff();
+        this->precision_ = math::pinv<MatType, VecType>(this->covariance_, tol);
     }
 
     /**compute log_likelihood of each sample*/
-- 
2.43.0


From f133d8b17e36e59732573fd841156bbac79a172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:07 +0000
Subject: [PATCH 73/93] fix: destroying a copy of a k-d tree emptied the
 original

---
 src/core/tree/kd_tree.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 2225f81..ec9c974 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -394,11 +394,8 @@ public:
             build_tree();
         };
 
-    ~KDTree() {
-        if (tree_ != nullptr) {
-            tree_->clear();
-        }
-    };
+    // copies share the nodes, which go with the last of them
+    ~KDTree() {};
 
     const std::pair<MatType, IdxMatType> query(
         const MatType& data, 
-- 
2.43.0


From 2e0c96aedd642a73173d8ca08da7489de8a44905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:29 +0000
Subject: [PATCH 74/93] fix: decision trees never separated neighbouring
 floating point values

---
 src/methods/tree/base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index ef487aa..c0b746e 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -29,6 +29,10 @@ protected:
         std::vector<DataType> stdvec_x;
         for (std::size_t i = 1; i < num_samples; ++i) {
             DataType mean = (sorted_x(i - 1) + sorted_x(i)) / 2;
+            // rounded up to the larger value it would not separate the two
+            if (!(mean >= sorted_x(i - 1) && mean < sorted_x(i))) {
+                mean = sorted_x(i - 1);
+            }
             stdvec_x.push_back(mean);
         }
 
-- 
2.43.0


From 1127c12103d2c57a5b4a3e0673cb4395e2b95790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:29 +0000
Subject: [PATCH 75/93] fix: tied covariances of gaussian mixtures cancelled
 for data away from the origin

---
 src/methods/mixture/gaussian_mixture.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index b3298ea..f5cc63f 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -191,16 +191,15 @@ private:
         VecType reg(num_features);
         reg.fill(reg_covar);
 
-        MatType avg_X = X.transpose() * X;
-        // MatType avg_means = 
-
-        MatType nk_tmp(num_components, num_features);
-        nk_tmp = common::repeat<MatType>(nk, num_features, 1);
         auto sum_nk = math::sum<MatType>(nk, 0);
 
-        MatType avg_means = (nk_tmp.array() * means.array()).matrix().transpose() * means;
-
-        MatType cov = avg_X - avg_means;
+        // the scatter around the means, X.T * X minus that of the means cancels
+        MatType cov(num_features, num_features);
+        cov.setZero();
+        for (std::size_t k = 0; k < num_components; k++) {
+            MatType diff = X.rowwise() - means.row(k);
+            cov += diff.transpose() * resp.col(k).asDiagonal() * diff;
+        }
         cov = cov.array() / sum_nk.value();
         cov = cov + MatType(reg.asDiagonal());
 
-- 
2.43.0


From 49afe2d5e5f5dfedf920bc9bba5c64cf06e35b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:24 +0000
Subject: [PATCH 76/93] fix: distances and scores of integer data overflowed or
 truncated

---
 src/core/metric.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index ad99a35..de88078 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -17,6 +17,10 @@ template<typename VecType>
 double mean_absolute_error(const VecType& y_true, 
     const VecType& y_pred) {
     
+    if constexpr (!std::is_floating_point<typename VecType::Scalar>::value) {
+        return mean_absolute_error<Eigen::VectorXd>(y_true.template cast<double>(), y_pred.template cast<double>());
+    }
+
     std::size_t num_samples = y_true.rows();
     double sum_abs2 = (y_true - y_pred).array().abs2().sum();
     return sum_abs2 / static_cast<double>(num_samples);
@@ -33,6 +37,10 @@ template<typename VecType>
 double explained_variance_score(const VecType& y_true, 
     const VecType& y_pred) {
 
+    if constexpr (!std::is_floating_point<typename VecType::Scalar>::value) {
+        return explained_variance_score<Eigen::VectorXd>(y_true.template cast<double>(), y_pred.template cast<double>());
+    }
+
     // VecType y_diff = y_pred - y_true;
     // VecType y_diff_var = math::var<VecType>(y_diff);
     // VecType y_var = math::var<VecType>(y_true);
@@ -55,9 +63,9 @@ double euclidean_distance(const std::vector<DataType>& a, const std::vector<Data
                 << "b number of elements " << b.size() << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
-    std::vector<DataType> aux;
+    std::vector<double> aux;
     std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(aux),
-                   [](DataType x1, DataType x2) { return std::pow((x1 - x2), 2); });
+                   [](double x1, double x2) { return std::pow((x1 - x2), 2); });
     aux.shrink_to_fit();
     return std::sqrt(std::accumulate(aux.begin(), aux.end(), 0.0));
 }
@@ -73,9 +81,9 @@ double manhattan_distance(const std::vector<DataType>& a, const std::vector<Data
                 << "b number of elements " << b.size() << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
-    std::vector<DataType> aux;
+    std::vector<double> aux;
     std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(aux),
-                   [](DataType x1, DataType x2) { return std::abs(x1 - x2); });
+                   [](double x1, double x2) { return std::abs(x1 - x2); });
     aux.shrink_to_fit();
     return std::accumulate(aux.begin(), aux.end(), 0.0);
 }
@@ -114,6 +122,10 @@ double minkowski_distance(const MatType& x, const MatType& y, int p) {
         throw std::invalid_argument(err_msg.str());
     }
 
+    if constexpr (!std::is_floating_point<typename MatType::Scalar>::value) {
+        return minkowski_distance<Eigen::MatrixXd>(x.template cast<double>(), y.template cast<double>(), p);
+    }
+
     double dist;
     if (p == 2) {
         dist = (x - y).template lpNorm<2>();
-- 
2.43.0


From 93c5682dd8a1e654e4935d40eab9f74f4f2ba4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:24 +0000
Subject: [PATCH 77/93] fix: L-BFGS returned NaN after a step without curvature

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index f42306e..b8c43b8 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -189,6 +189,17 @@ public:
             // Notice that yy is used for scaling the hessian matrix H_0 (Cholesky factor).
             ys = mem_y.col(end).dot(mem_s.col(end));
             yy = mem_y.col(end).dot(mem_y.col(end));
+            if (!(ys > 0)) {
+                // no curvature along this step, which is left out of the directions 
+                if (x == xp) {
+                    std::cout << "INFO: the weights do not change any more." << std::endl;
+                    break;
+                }
+                mem_s.col(end).setZero();
+                mem_y.col(end).setZero();
+                ys = 1.0;
+                yy = 1.0;
+            }
             mem_ys(end) = ys;
 
             // Compute the negative of gradients
-- 
2.43.0


From ad2d8973dc82e9bd3cfae50acf136ff9bb66fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:25 +0000
Subject: [PATCH 78/93] fix: logistic regression did not compile for float

---
 src/methods/linear_model/logistic_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 77cbfda..a397511 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -102,7 +102,7 @@ protected:
                         verbose_);
             }
             else if (solver_ == "lbfgs") {
-                optimizer::LineSearchParams<double> linesearch_params(
+                optimizer::LineSearchParams<DataType> linesearch_params(
                     ftol_, wolfe_, max_linesearch_, linesearch_condition_
                 );
                 opt = std::make_unique<optimizer::LBFGS<DataType, 
-- 
2.43.0


From d5c136289c6671d02bbf6ec30d6874bff3ca1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:25 +0000
Subject: [PATCH 79/93] fix: the singular value decomposition only compiled for
 double

---
 src/core/math/linalg.hpp          | 10 ++++++----
 src/methods/decomposition/pca.hpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index eb6a960..7c7e17d 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -117,13 +117,13 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
     // For small matrice (<16), it is thus preferable to directly use JacobiSVD. 
     // For larger matrice, BDCSVD
     if (num_features < 16) {
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::JacobiSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
     }
     else {
-        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::BDCSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
@@ -136,8 +136,10 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
             (V.transpose() * V - MatType::Identity(V.cols(), V.cols())).norm());
         const double approx_err = (U.leftCols(rank) * s.asDiagonal() * 
             V.leftCols(rank).transpose() - x).norm();
-        if (!(orth_err < 1.e-10 && approx_err <= 1.e-10 * x.norm())) {
-            Eigen::JacobiSVD<Eigen::MatrixXd> jacobi_svd(x, options);
+        const double tol = 10.0 * std::max(x.rows(), x.cols()) * 
+            Eigen::NumTraits<typename MatType::value_type>::epsilon();
+        if (!(orth_err < tol && approx_err <= tol * x.norm())) {
+            Eigen::JacobiSVD<MatType> jacobi_svd(x, options);
             U = jacobi_svd.matrixU();
             s = jacobi_svd.singularValues();
             V = jacobi_svd.matrixV();
diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index b98ac6f..f2defe5 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -115,7 +115,7 @@ protected:
     /**Compute data precision matrix*/
     void compute_precision_matrix() {
         // the cutoff is relative to the scale of the data
-        const double tol = 1.e-12 * this->covariance_.cwiseAbs().maxCoeff();
+        const double tol = 1.e3 * ConstType<DataType>::epsilon() * this->covariance_.cwiseAbs().maxCoeff();
         this->precision_ = math::pinv<MatType, VecType>(this->covariance_, tol);
     }
 
-- 
2.43.0


From 3d07b69d81b326d36cb6dae45103ad6b0d9add65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:25 +0000
Subject: [PATCH 80/93] fix: truncated gradient did not compile for float

---
 src/core/optimizer/sgd/tg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 6377da7..cb5854a 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -34,7 +34,7 @@ private:
         VecType weight = w; 
 
         for (std::size_t j = 0; j < num_features; ++j) {
-            DataType w_j = weight(j, 0);
+            double w_j = weight(j, 0);
             if (w_j > 0.0) {
                 weight(j, 0) = std::max(0.0, w_j - (max_cum_l1 + cum_l1(j, 0)));
             }
-- 
2.43.0


From 48c1637b3355f6a288cdaeb6adb97ea79dbbefaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 81/93] fix: a k-d tree with an unknown metric used an
 uninitialised norm and one with empty leaves never ended

---
 src/core/tree/kd_tree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index ec9c974..7f8b102 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -384,6 +384,13 @@ public:
         else if (metric == "chebyshev") {
             ord_ = Eigen::Infinity;
         }
+        else {
+            throw std::invalid_argument("The metric must be 'manhattan', 'euclidean' or 'chebyshev'.");
+        }
+
+        if (leaf_size_ == 0) {
+            throw std::invalid_argument("The leaf size must be at least 1.");
+        }
 
         build_tree();
     };
-- 
2.43.0


From d5a1d7f45bbd5b1161e5240402499486fc981e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 82/93] fix: the nearest neighbour classifier accepted unknown
 solvers and predicted nothing

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index e386d57..a796d0e 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -104,6 +104,9 @@ public:
         else if (solver_ == "brute") {
             X_ = X;
         }
+        else {
+            throw std::invalid_argument("The solver must be 'kdtree' or 'brute'.");
+        }
         y_ = y;
         
     }
-- 
2.43.0


From 793e4c5307785492b620997c53bfff571f5da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 83/93] fix: more neighbours than samples let the k-d tree
 classifier count samples that do not exist

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index a796d0e..7e9b097 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -113,6 +113,13 @@ public:
 
     const ColVecType predict(const MatType& X) {
         ColVecType pred_label;
+        if (num_neighbors_ == 0 || num_neighbors_ > y_.rows()) {
+            std::ostringstream err_msg;
+            err_msg << "Expected 1 <= n_neighbors <= n_samples, "
+                    << "but got num_neighbors = " << num_neighbors_
+                    << ", num_samples = " << y_.rows() << std::endl;
+            throw std::out_of_range(err_msg.str());
+        }
         if (solver_ == "kdtree") {
             MatType neighbor_dist;
             IdxMatType neighbor_indice;
-- 
2.43.0


From e675f5403ff83aaae690e71f3ae8ca6da9d9ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 84/93] fix: k-means accepted unknown initialisations and more
 clusters than samples

---
 src/methods/cluster/kmeans.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index fe02c1b..240396e 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -108,6 +108,13 @@ protected:
         const VecType& x_squared_norms) {
         
         std::size_t num_samples = X.rows(), num_features = X.cols(); 
+        if (num_clusters_ == 0 || num_clusters_ > num_samples) {
+            std::ostringstream err_msg;
+            err_msg << "Expected 1 <= n_clusters <= n_samples, "
+                    << "but got num_clusters = " << num_clusters_
+                    << ", num_samples = " << num_samples << std::endl;
+            throw std::out_of_range(err_msg.str());
+        }
         centroids_.resize(num_clusters_, num_features);
 
         if (init_ == "random") {
@@ -118,6 +125,9 @@ protected:
         else if (init_ == "kmeans++") {
             centroids_ = kmeans_plusplus(X);
         }
+        else {
+            throw std::invalid_argument("The init must be 'random' or 'kmeans++'.");
+        }
     }
     
 
-- 
2.43.0


From 285a3139a6ab6bd7bdbbed251bff0e16e93cbb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 85/93] fix: PCA and truncated SVD accepted unknown solvers

---
 src/methods/decomposition/pca.hpp           | 5 ++++-
 src/methods/decomposition/truncated_svd.hpp | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index f2defe5..ae66b3b 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -52,7 +52,10 @@ protected:
 
             explained_var = math::power<VecType>(s, 2.0) / (static_cast<DataType>(num_samples) - 1.);
             components = Vt;
-        };
+        }
+        else {
+            throw std::invalid_argument("The solver must be 'svd'.");
+        }
 
         VecType total_var = math::sum<MatType>(explained_var);
         explained_var_ratio = explained_var / total_var.value();
diff --git a/src/methods/decomposition/truncated_svd.hpp b/src/methods/decomposition/truncated_svd.hpp
index ed74eaa..130274c 100644
--- a/src/methods/decomposition/truncated_svd.hpp
+++ b/src/methods/decomposition/truncated_svd.hpp
@@ -42,6 +42,9 @@ protected:
                 true);
             X_transformed = X * Vt.transpose();
         }
+        else {
+            throw std::invalid_argument("The solver must be 'randomized'.");
+        }
 
         // compute variance of each faeture along axis = 0
         double full_var;
-- 
2.43.0


From fb56a17e1c2fd26d7b4aa18753eb7721b40951b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 86/93] fix: PCA read beyond the components that exist

---
 src/methods/decomposition/pca.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index ae66b3b..ecbafd3 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -34,6 +34,13 @@ protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        if (this->num_components_ > std::min(num_samples, num_features)) {
+            std::ostringstream err_msg;
+            err_msg << "Expected n_components <= min(n_samples, n_features), "
+                    << "but got num_components = " << this->num_components_ << std::endl;
+            throw std::out_of_range(err_msg.str());
+        }
+
         mean_ = X.colwise().mean();
         MatType centered_X;
         centered_X = center_data(X);
-- 
2.43.0


From 41ec99d37adc8fd5a35d169ace8bd7d353e36fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 87/93] fix: the mixture accepted unknown options and started
 from uninitialised memory

---
 src/methods/mixture/gaussian_mixture.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index f5cc63f..42dad3a 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -246,6 +246,9 @@ private:
         else if (covariance_type == "tied") {
             covariances = estimate_gaussian_covariances_tied(X, resp, means, nk, reg_covar);
         }
+        else {
+            throw std::invalid_argument("The covariance type must be 'full' or 'tied'.");
+        }
         
         return std::make_tuple(covariances, means, nk);
     }
@@ -376,6 +379,9 @@ private:
             MatType sum_resp_tmp = common::repeat<MatType>(sum_resp, num_components_, 1);
             resp = resp.array() / sum_resp_tmp.array();
         }
+        else {
+            throw std::invalid_argument("The init params must be 'random'.");
+        }
 
         std::vector<MatType> covariances;
         MatType means;
@@ -447,7 +453,7 @@ private:
     void fit_data(const MatType& X) {
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
-        if (num_samples < num_components_) {
+        if (num_components_ == 0 || num_samples < num_components_) {
             std::ostringstream err_msg;
             err_msg << "Expected n_samples >= n_components, "
                     << "but got num_components = " << num_components_
-- 
2.43.0


From feff722761f655c512c6748fabea6e36a24d1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 88/93] fix: softmax regression ignored its solver and penalty
 options

---
 src/methods/linear_model/softmax_regression.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index c94f464..02e193e 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -39,6 +39,12 @@ protected:
     void fit_data(const MatType& X, 
         const VecType& y) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
+        if (solver_ != "sgd") {
+            throw std::invalid_argument("The solver must be 'sgd'.");
+        }
+        if (penalty_ != "l2" && penalty_ != "None") {
+            throw std::invalid_argument("The penalty must be 'l2' or 'None'.");
+        }
         MatType X_new = X;
         VecType y_new = y;
 
@@ -56,7 +62,7 @@ protected:
         MatType w(num_features, num_classes);
         w.setOnes();
 
-        loss::SoftmaxLoss<DataType> softmax_loss(lambda_);
+        loss::SoftmaxLoss<DataType> softmax_loss(penalty_ == "l2" ? lambda_ : 0.0);
         optimizer::VanillaUpdate<DataType> w_update;
         optimizer::StepDecay<DataType> lr_decay(alpha_);
 
-- 
2.43.0


From 59c33c6b88e48ba8b7e71fa22448e6232eca7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 89/93] fix: the perceptron ignored its penalty option

---
 src/methods/linear_model/perceptron.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 3dbeff4..8504ad6 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -43,6 +43,9 @@ protected:
         const VecType& y) {
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
+        if (penalty_ != "l2" && penalty_ != "None") {
+            throw std::invalid_argument("The penalty must be 'l2' or 'None'.");
+        }
         MatType X_new = X;
         // the hinge loss needs the labels as -1 and 1, predict returns 0 and 1
         VecType y_new = (y.array() > 0).select(VecType::Ones(num_samples), 
@@ -60,7 +63,7 @@ protected:
         VecType w(num_features);
         w.setRandom();
 
-        loss::HingeLoss<DataType> hinge_loss(lambda_, 0.0);
+        loss::HingeLoss<DataType> hinge_loss(penalty_ == "l2" ? lambda_ : 0.0, 0.0);
         optimizer::StepDecay<DataType> lr_decay(alpha_);
         optimizer::VanillaUpdate<DataType> weight_update;
 
-- 
2.43.0


From 6518c8498f2a786055ccc47142418d96039ce37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:17 +0000
Subject: [PATCH 90/93] fix: logistic regression read options its constructor
 had not set

---
 .../linear_model/logistic_regression.hpp      | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index a397511..df51d3e 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -16,23 +16,24 @@ private:
 
     bool shuffle_;
     bool verbose_;
-    double alpha_;
-    double lambda_;
-    double tol_;
-    double l1_ratio_;
-    double ftol_;
-    double wolfe_;
-    double delta_;
-    std::size_t num_iters_no_change_;
-    std::size_t max_linesearch_; 
-    std::size_t batch_size_;
+    // options a constructor does not take keep the defaults of the optimizers
+    double alpha_ = 0.1;
+    double lambda_ = 0.0;
+    double tol_ = 0.0001;
+    double l1_ratio_ = 1.0;
+    double ftol_ = 1e-4;
+    double wolfe_ = 0.9;
+    double delta_ = 1e-6;
+    std::size_t num_iters_no_change_ = 5;
+    std::size_t max_linesearch_ = 40; 
+    std::size_t batch_size_ = 16;
     std::size_t max_iter_;
-    std::size_t mem_size_;
-    std::size_t past_;
+    std::size_t mem_size_ = 8;
+    std::size_t past_ = 3;
     std::string solver_;
     std::string penalty_;
-    std::string linesearch_policy_;
-    std::string linesearch_condition_;
+    std::string linesearch_policy_ = "backtracking";
+    std::string linesearch_condition_ = "WOLFE";
 
 protected:
     /**
-- 
2.43.0


From 21bdd1ffb595a1a06c2935f81eb9b4557bf53e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:41 +0000
Subject: [PATCH 91/93] fix: loadtxt dropped or split a field that is not one
 number

---
 src/core/data/load.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 50b849d..b24b6b7 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -28,12 +28,15 @@ void loadtxt(const std::string &fp,
         std::stringstream str_stream(line);
         std::vector<DataType> row;
 
-        for (DataType elem; str_stream >> elem; ) {
+        for (std::string field; str_stream >> field; ) {
+            std::stringstream field_stream(field);
+            DataType elem;
+            // the whole field has to be one number that the type can hold
+            if (!(field_stream >> elem) || field_stream.peek() != EOF) {
+                throw std::runtime_error("Input file contains a field that is not a number.");
+            }
             row.push_back(elem);
         }
-        if (!str_stream.eof()) {
-            throw std::runtime_error("Input file contains a field that is not a number.");
-        }
         stdmat.push_back(row);
     }
 
@@ -69,12 +72,15 @@ void loadtxt(const std::string &fp,
         std::stringstream str_stream(line);
         std::vector<DataType> row;
 
-        for (DataType elem; str_stream >> elem; ) {
+        for (std::string field; str_stream >> field; ) {
+            std::stringstream field_stream(field);
+            DataType elem;
+            // the whole field has to be one number that the type can hold
+            if (!(field_stream >> elem) || field_stream.peek() != EOF) {
+                throw std::runtime_error("Input file contains a field that is not a number.");
+            }
             row.push_back(elem);
         }
-        if (!str_stream.eof()) {
-            throw std::runtime_error("Input file contains a field that is not a number.");
-        }
         X.push_back(row);
     }
 };
@@ -99,12 +105,15 @@ void loadtxt(const std::string &fp,
         std::stringstream str_stream(line);
         std::vector<DataType> row;
 
-        for (DataType elem; str_stream >> elem; ) {
+        for (std::string field; str_stream >> field; ) {
+            std::stringstream field_stream(field);
+            DataType elem;
+            // the whole field has to be one number that the type can hold
+            if (!(field_stream >> elem) || field_stream.peek() != EOF) {
+                throw std::runtime_error("Input file contains a field that is not a number.");
+            }
             row.push_back(elem);
         }
-        if (!str_stream.eof()) {
-            throw std::runtime_error("Input file contains a field that is not a number.");
-        }
         stdmat.push_back(row);
     }
 
-- 
2.43.0


From 5d031fd16772f16e5232803e390186b91ca4f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:43 +0000
Subject: [PATCH 92/93] fix: loadtxt wrapped negative fields of unsigned
 element types

---
 src/core/data/load.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index b24b6b7..be762e0 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -32,7 +32,8 @@ void loadtxt(const std::string &fp,
             std::stringstream field_stream(field);
             DataType elem;
             // the whole field has to be one number that the type can hold
-            if (!(field_stream >> elem) || field_stream.peek() != EOF) {
+            if (!(field_stream >> elem) || field_stream.peek() != EOF || 
+                (std::is_unsigned<DataType>::value && field[0] == '-' && elem != 0)) {
                 throw std::runtime_error("Input file contains a field that is not a number.");
             }
             row.push_back(elem);
@@ -76,7 +77,8 @@ void loadtxt(const std::string &fp,
             std::stringstream field_stream(field);
             DataType elem;
             // the whole field has to be one number that the type can hold
-            if (!(field_stream >> elem) || field_stream.peek() != EOF) {
+            if (!(field_stream >> elem) || field_stream.peek() != EOF || 
+                (std::is_unsigned<DataType>::value && field[0] == '-' && elem != 0)) {
                 throw std::runtime_error("Input file contains a field that is not a number.");
             }
             row.push_back(elem);
@@ -109,7 +111,8 @@ void loadtxt(const std::string &fp,
             std::stringstream field_stream(field);
             DataType elem;
             // the whole field has to be one number that the type can hold
-            if (!(field_stream >> elem) || field_stream.peek() != EOF) {
+            if (!(field_stream >> elem) || field_stream.peek() != EOF || 
+                (std::is_unsigned<DataType>::value && field[0] == '-' && elem != 0)) {
                 throw std::runtime_error("Input file contains a field that is not a number.");
             }
             row.push_back(elem);
-- 
2.43.0


From 85baa8edf6dea009204228c57c177eb07af2ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:43 +0000
Subject: [PATCH 93/93] fix: multinomial naive Bayes without smoothing gave NaN
 for absent features

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 9696302..73d9730 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -72,6 +72,10 @@ protected:
 
         double retval = 0.0;
         for (std::size_t i = 0; i < x.rows(); ++i) {
+            // a feature that does not occur has no influence, 0 * log(0) included
+            if (x(i) == 0) {
+                continue;
+            }
             DataType numerator = feature_count_(c, i) + alpha_;
             DataType denominator = class_count_(c, 0) + (alpha_ * num_features_);
             retval += x(i) * std::log(numerator / denominator);
-- 
2.43.0

