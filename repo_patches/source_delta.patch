From 6e68621780619dad41f3543ec00c9198dfd10251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 01/79] fix: loadtxt rejects empty files and rows of different
 sizes instead of reading out of bounds

---
 src/core/data/load.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..f78ee87 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -34,6 +34,16 @@ void loadtxt(const std::string &fp,
         stdmat.push_back(row);
     }
 
+    // every line must hold the same, non-zero number of values
+    for (const auto& row : stdmat) {
+        if (row.empty() || row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file has rows of different sizes.");
+        }
+    }
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file is empty.");
+    }
+
     // conert std 2D vector into eigen matrix
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
     MatType mat(n_rows, n_cols);
@@ -91,6 +101,16 @@ void loadtxt(const std::string &fp,
         stdmat.push_back(row);
     }
 
+    // every line must hold the same, non-zero number of values
+    for (const auto& row : stdmat) {
+        if (row.empty() || row.size() != stdmat[0].size()) {
+            throw std::runtime_error("Input file has rows of different sizes.");
+        }
+    }
+    if (stdmat.empty()) {
+        throw std::runtime_error("Input file is empty.");
+    }
+
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
     X.resize(nrows, std::vector<DataType>(ncols - 1));
     for (std::size_t i = 0; i < nrows; ++i) {
-- 
2.43.0


From 2ef98a2803ee2639472e6f0cb9d079235713cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 02/79] fix: argsort of a matrix with one or two entries along
 the axis yields out-of-range indices

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..88b4b36 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
-- 
2.43.0


From 69b774a7961de89950333db2b30a6bc38f3c8061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 03/79] fix: argsort of a vector writes its result past the end
 of an empty vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 88b4b36..f63ddbc 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -801,7 +801,7 @@ std::vector<DataType> difference(const std::vector<DataType>& v1,
 template<typename DataType>
 const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reverse = false) {
     
-    std::vector<std::size_t> indices;
+    std::vector<std::size_t> indices(x.size());
     std::vector<std::pair<DataType, std::size_t>> combine;
     for (int i = 0; i < x.size(); ++i) {
         combine.push_back(std::make_pair(x[i], i));
-- 
2.43.0


From 46076c612be232e95bb48ec22c7359fdfe19b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 04/79] fix: slice checks its bounds against the sliced
 dimension and copies the requested range

---
 src/core/common.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index f63ddbc..3dc24b0 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -842,14 +842,14 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    if (end_col < start_col || end_col >= x[0].size()) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
@@ -880,7 +880,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -890,7 +890,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From 9fccc9ad2ffd421a2c8c24a3219ae111af93cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 05/79] fix: is_equal reads past the end of a shorter second
 vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 3dc24b0..8511366 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -704,7 +704,7 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
-    auto pair = std::mismatch(x.begin(), x.end(), y.begin());
+    auto pair = std::mismatch(x.begin(), x.end(), y.begin(), y.end());
     return (pair.first == x.end() && pair.second == y.end());
 };
 
-- 
2.43.0


From 6e2c853222243b8b5accb2e78428c598c37a96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 06/79] fix: sortrows comparators fall off their end for equal
 rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 8511366..8492ed0 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -738,6 +738,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -749,6 +750,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From 087b8206feec2ad3602e1b0803143ce96b8bc9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 07/79] fix: unique returns indices into the sorted copy
 instead of into its input

---
 src/core/common.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 8492ed0..435155c 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -420,19 +420,15 @@ std::tuple<VecType, VecType> unique(const VecType& x){
         stdvec_x.push_back(x(i, 0));
     }
 
-    std::sort(stdvec_x.begin(), stdvec_x.end());
     auto first = std::begin(stdvec_x), last = std::end(stdvec_x);
-    std::set<std::size_t> hash_set;
     std::map<DataType, std::size_t> hash_map;
     for(std::size_t i = 0; first != last; ++i, ++first){
-        auto iter_pair = hash_map.insert(std::make_pair(*first, i));
-        if(iter_pair.second){
-            stdvec_value.push_back(iter_pair.first->first);
-            hash_set.insert(iter_pair.first->second);
-            hash_set.insert(i);
-        }
+        hash_map.insert(std::make_pair(*first, i));
+    }
+    for (const auto& pair : hash_map) {
+        stdvec_value.push_back(pair.first);
+        stdvec_index.push_back(pair.second);
     }
-    stdvec_index = {hash_set.begin(), hash_set.end()};
 
     VecType retvec_value = Eigen::Map<VecType>(stdvec_value.data(), stdvec_value.size(), 1);
     VecType retvec_index = Eigen::Map<VecType>(stdvec_index.data(), stdvec_index.size(), 1);
-- 
2.43.0


From 714e032fa26761643a32712a204cfdd497e31bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 08/79] fix: lu factors did not multiply back to the input
 matrix

---
 src/core/math/linalg.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..dda1117 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,9 +25,26 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
 
-    MatType lu_m = lu_decomposition.matrixLU();
+    // gaussian elimination with partial pivoting, row_permut * x = L * U
+    MatType lu_m = x;
+    Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> row_permut(nrows);
+    row_permut.setIdentity();
+    for (std::size_t k = 0; k < min_size; ++k) {
+        Eigen::Index pivot;
+        auto max_abs = lu_m.col(k).tail(nrows - k).cwiseAbs().maxCoeff(&pivot);
+        if (max_abs == 0) {
+            continue;
+        }
+        if (pivot != 0) {
+            lu_m.row(k).swap(lu_m.row(k + pivot));
+            row_permut.applyTranspositionOnTheLeft(k, k + pivot);
+        }
+        lu_m.col(k).tail(nrows - k - 1) /= lu_m(k, k);
+        lu_m.bottomRightCorner(nrows - k - 1, ncols - k - 1) -= 
+            (lu_m.col(k).tail(nrows - k - 1) * lu_m.row(k).tail(ncols - k - 1)).eval();
+    }
+
     // L is (M, min(M, N))
     MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
     L = L.leftCols(min_size).eval();
@@ -36,8 +53,8 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
     MatType U = lu_m.template triangularView<Eigen::Upper>();
     U = U.topRows(min_size).eval();
 
-    MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
+    // x = P * L * U
+    MatType P = row_permut.transpose().toDenseMatrix().template cast<typename MatType::Scalar>();
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From a358dc7eef54161848b6af570e683097cc46039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 09/79] fix: randomized_svd fails whenever the projected matrix
 is not square

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index dda1117..b563d43 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -210,7 +210,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 7b8e0c0414dd7c2aded2a288d27840ee5391230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 10/79] fix: axis reductions reject an invalid axis instead of
 returning garbage

---
 src/core/math/extmath.hpp |  3 +++
 src/core/math/linalg.hpp  |  3 +++
 src/core/math/ops.hpp     | 12 ++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..cd6b987 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -250,6 +250,9 @@ MatType softmax(const MatType& x, int axis = 0) {
         c.resize(nrows, ncols);
         c.fill(maxval);
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     MatType exp_x = (x - c).array().exp();
 
     if (axis == 0) {
diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index b563d43..03e0801 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -319,6 +319,9 @@ VecType logsumexp(const MatType& x, int axis){
         log_sum_exp(0, 0) = log_sum_exp_val;
         return log_sum_exp;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 7aef730..1ee6c51 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -184,6 +184,9 @@ VecType median(const MatType& x, int axis = 0) {
         }
         return med;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -243,6 +246,9 @@ VecType norm2(const MatType& x, int axis = 0) {
     else if (axis == 1) {
         return x.rowwise().norm();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -278,6 +284,9 @@ MatType cumsum(const MatType& x, int axis = 0) {
         std::partial_sum(flatten_vec.begin(), flatten_vec.end(), sum.begin());
         return sum;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return cum_sum;
 };
 
@@ -337,6 +346,9 @@ std::tuple<MatType, MatType> mode(const MatType& x, int axis = 0) {
             count(i, 0) = max_freqency;
         }
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return std::make_tuple(mode, count);
 };
 
-- 
2.43.0


From dadffc07f8fce73357cdfa4999f338823a386f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 11/79] fix: softmax rejects a single row (or column) although
 the normalised axis has several entries

---
 src/core/math/extmath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index cd6b987..d4f5a8d 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -234,7 +234,9 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
+    if ((axis == 0 && nrows == 1) || 
+        (axis == 1 && ncols == 1) || 
+        (axis == -1 && nrows * ncols == 1)) {
         throw std::invalid_argument("Input ndarray should be 2 dimension");
     }
 
-- 
2.43.0


From 7384fa5a5a46c07a34f9f1da94913baf34031e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 12/79] fix: LogLoss evaluates to NaN when the sigmoid
 saturates

---
 src/core/loss/log_loss.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/loss/log_loss.hpp b/src/core/loss/log_loss.hpp
index 30dc204..7b88858 100644
--- a/src/core/loss/log_loss.hpp
+++ b/src/core/loss/log_loss.hpp
@@ -36,15 +36,13 @@ public:
         std::size_t num_samples = X.rows();
 
         VecType X_w(num_samples); 
-        VecType y_hat(num_samples); 
         X_w = X * W;
-        y_hat = math::sigmoid<VecType>(X_w);
 
-        VecType tmp1 = static_cast<DataType>(-1) * y.array() * 
-            y_hat.array().log();
-        VecType tmp2 = (static_cast<DataType>(1) - y.array()) * 
-            (static_cast<DataType>(1) - y_hat.array()).log();
-        VecType tmp3 = tmp1 - tmp2;
+        // -y * log(s(z)) - (1 - y) * log(1 - s(z)) = max(z, 0) - y * z + log(1 + exp(-|z|)),
+        // the right-hand side stays finite when the sigmoid saturates
+        VecType tmp1 = X_w.array().max(static_cast<DataType>(0)) - y.array() * X_w.array();
+        VecType tmp2 = (-X_w.array().abs()).exp().log1p();
+        VecType tmp3 = tmp1 + tmp2;
         double loss = static_cast<double>(tmp3.array().sum()) /
             static_cast<double>(num_samples);
 
-- 
2.43.0


From a52a8a45e582724284cb02ba84774ca204e8c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 13/79] fix: HingeLoss accumulates its gradient into
 uninitialised memory

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From 77be405a50bf38db249ce6ffbaf0536c272246ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 14/79] fix: SoftmaxLoss shifts by the global instead of the
 row maximum and becomes NaN or infinite

---
 src/core/loss/softmax_loss.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..8bd258a 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -40,19 +40,18 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
+        MatType tmp1 = xw.colwise() - xw.rowwise().maxCoeff();
         MatType exp_xw = tmp1.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
 
         std::size_t index;
-        VecType exp_xw_i(num_samples);
+        VecType xw_i(num_samples);
         for (int i = 0; i < num_samples; ++i) {
             index = static_cast<std::size_t>(y(i, 0));
-            exp_xw_i(i, 0) = exp_xw(i, index);
+            xw_i(i, 0) = tmp1(i, index);
         }
 
-        auto tmp2 = exp_xw_i.array() / sum_exp_xw.array();
-        double loss = -tmp2.array().log().sum();
+        double loss = (sum_exp_xw.array().log() - xw_i.array()).sum();
 
         loss /= static_cast<double>(num_samples);
 
@@ -78,7 +77,7 @@ public:
         MatType xw(num_samples, num_classes);
         xw = X * W;
 
-        auto tmp1 = xw.array() - xw.maxCoeff();
+        MatType tmp1 = xw.colwise() - xw.rowwise().maxCoeff();
         MatType exp_xw = tmp1.array().exp();
         VecType sum_exp_xw = exp_xw.rowwise().sum();
         MatType normalized_exp_xw = exp_xw.array().colwise() / sum_exp_xw.array();
-- 
2.43.0


From c4da4f782db69045c442088bdc89d94a15bf0320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 15/79] fix: SoftmaxLoss penalty sums all entries of W'W
 instead of the squared norm its gradient uses

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 8bd258a..9650308 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -55,7 +55,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = W.squaredNorm() / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From ccf96ceb6d678f80cfc933a7224ea39692d05a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 16/79] fix: HuberLoss applies the threshold to each residual,
 and its gradient compiles

---
 src/core/loss/huber_loss.hpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/core/loss/huber_loss.hpp b/src/core/loss/huber_loss.hpp
index 8527b9c..a4d44d9 100644
--- a/src/core/loss/huber_loss.hpp
+++ b/src/core/loss/huber_loss.hpp
@@ -39,17 +39,17 @@ public:
         X_w = X * W; 
 
         double loss = 0.0;
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            loss = 0.5 * condition;
-        }
-        else {
-            auto tmp = (y - X_w).array() - 0.5 * delta_;
-            auto norm = tmp.array().abs().colwise().sum().maxCoeff();
-            loss = delta_ * static_cast<double>(norm);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double residual = std::abs(y(i, 0) - X_w(i, 0));
+            if (residual <= delta_) {
+                loss += 0.5 * residual * residual;
+            }
+            else {
+                loss += delta_ * residual - 0.5 * delta_ * delta_;
+            }
         }
 
-        // loss = loss / static_cast<double>(num_samples);
+        loss = loss / static_cast<double>(num_samples);
         double reg = static_cast<double>(W.transpose() * W) / 
             (static_cast<double>(num_samples) * 2.0);
 
@@ -57,10 +57,10 @@ public:
     };
 
     /**
-     * Evaluate the gradient of the hinge loss objective function with the given 
+     * Evaluate the gradient of the huber loss objective function with the given 
      * parameters
      * 
-     *      dw = y_i*w*x > 1 : 0 ? -y_i*x
+     *      dot(X.T, clip(np.dot(X, W) - y, -delta, delta)) / len(y)
     */
     const VecType gradient(const MatType& X, 
         const VecType& y,
@@ -72,17 +72,9 @@ public:
         VecType X_w(num_samples);
         X_w = X * W;
 
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            auto tmp = X.transpose() * (X_w - y);
-            grad = tmp.array() / num_samples;
-        }
-        else {
-            // grad = self.delta *np.dot(X.T, np.sign(np.dot(X,self.w) - y))/ y.shape[0]
-            auto tmp = X.transpose() * (X_w - y).array().sign();
-            grad = tmp.array() * (delta_ / num_samples);
-        }
-        
+        // derivative of each residual is X_w - y, limited to [-delta, delta]
+        VecType residual = common::clip<VecType>(X_w - y, delta_, -delta_);
+        grad = X.transpose() * residual / static_cast<DataType>(num_samples);
 
         VecType reg(num_features);
         reg = W.array() / static_cast<DataType>(num_samples);
-- 
2.43.0


From 6c00c2940bfc1cd35bff377421df7d1204304da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 17/79] fix: ExponentialDecay grows the learning rate instead
 of decaying it

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From 8f6cc59b3b8546ceeaa6f17219333f4c700df6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 18/79] fix: StepDecay drops the learning rate one epoch early

---
 src/core/optimizer/sgd/decay_policies/step_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/step_decay.hpp b/src/core/optimizer/sgd/decay_policies/step_decay.hpp
index cfddbcc..a4198ad 100644
--- a/src/core/optimizer/sgd/decay_policies/step_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/step_decay.hpp
@@ -33,7 +33,7 @@ public:
      * lr = base_lr * gamma ^ floor(epoch / step_size) 
     */
     double compute(std::size_t epoch) {
-        std::size_t warmup_iters = (1 + epoch) / step_size_;
+        std::size_t warmup_iters = epoch / step_size_;
         double lr = base_lr_ * std::pow(gamma_, warmup_iters);
         return lr;
     }
-- 
2.43.0


From 01567623151de3100dc3b3ee90ab7e80a269c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 19/79] fix: SAG averages its gradient memory over the number
 of batches

---
 src/core/optimizer/sgd/sag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 5c0e700..d295d5c 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -81,7 +81,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(this->batch_size_));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(num_batch));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-- 
2.43.0


From 7583c44f45479c628e0808531b3e967a1238aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 20/79] fix: TruncatedGradient forgets the penalty it already
 applied after every step

---
 src/core/optimizer/sgd/tg.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 44572cc..e40879d 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -44,7 +44,6 @@ private:
 
             cum_l1(j, 0) += (weight(j, 0) - w_j);
         }
-        cum_l1.setZero();
         return weight;
     }
 
-- 
2.43.0


From ef1c27250a10e1caabb33fd3cc41218b202f2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 21/79] fix: SGD, SAG and TruncatedGradient report convergence
 without training when the batch exceeds the data

---
 src/core/optimizer/sgd/sag.hpp | 3 +++
 src/core/optimizer/sgd/sgd.hpp | 3 +++
 src/core/optimizer/sgd/tg.hpp  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index d295d5c..e9a9917 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -48,6 +48,9 @@ public:
     void optimize(const MatType& X, 
         const VecType& y) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
+        if (this->batch_size_ == 0 || this->batch_size_ > num_samples) {
+            throw std::invalid_argument("Batch size should be between 1 and the number of samples.");
+        }
         std::size_t num_batch = num_samples / this->batch_size_;
         std::size_t no_improvement_count = 0;
         
diff --git a/src/core/optimizer/sgd/sgd.hpp b/src/core/optimizer/sgd/sgd.hpp
index 620e5dc..26a6eec 100644
--- a/src/core/optimizer/sgd/sgd.hpp
+++ b/src/core/optimizer/sgd/sgd.hpp
@@ -51,6 +51,9 @@ public:
         const VecType& y) {
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
+        if (this->batch_size_ == 0 || this->batch_size_ > num_samples) {
+            throw std::invalid_argument("Batch size should be between 1 and the number of samples.");
+        }
         std::size_t num_batch = num_samples / this->batch_size_;
         std::size_t no_improvement_count = 0;
 
diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index e40879d..f5e739f 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -81,6 +81,9 @@ public:
         const VecType& y) {
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
+        if (this->batch_size_ == 0 || this->batch_size_ > num_samples) {
+            throw std::invalid_argument("Batch size should be between 1 and the number of samples.");
+        }
         std::size_t num_batch = num_samples / this->batch_size_;
         std::size_t no_improvement_count = 0;
 
-- 
2.43.0


From 6e7414488cadd11ebe5f006e253e6d9ef2e63dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 22/79] fix: BaseOptimizer leaves multi_class uninitialised in
 one constructor

---
 src/core/optimizer/base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 72456d6..8d463ff 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -86,7 +86,8 @@ public:
             loss_func_(loss_func),
             max_iter_(max_iter), 
             shuffle_(shuffle),
-            verbose_(verbose) {};
+            verbose_(verbose), 
+            multi_class_(multi_class) {};
     
     ~BaseOptimizer() {};
 
-- 
2.43.0


From 75f4c1f4dc299f3322138c11210ea7f459989936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 23/79] fix: MomentumUpdate forgets its velocity after every
 update

---
 .../optimizer/sgd/update_policies/momentum_update.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..11f0f4e 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    // velocity, accumulated over the successive updates
+    mutable MatType V_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -25,10 +27,11 @@ public:
         const MatType& grad, 
         const double lr) const{
         std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        if (V_.rows() != num_features || V_.cols() != num_classes) {
+            V_ = MatType::Zero(num_features, num_classes);
+        }
+        V_ = V_ * mu_ + grad * lr;
+        MatType updated_W = W - V_;
         return updated_W;
     };
 
-- 
2.43.0


From 463f2e75c318e82ad4b25b490c56d149b3fbdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 24/79] fix: NesterovMomentumUpdate fails on its first update
 and keeps no velocity

---
 .../nesterov_momentum_update.hpp              | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
index 7026a00..7ef6e26 100644
--- a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
@@ -13,6 +13,8 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     DataType mu;
+    // velocity, accumulated over the successive updates
+    mutable MatType V_;
 
 public:
     NesterovMomentumUpdate(const DataType mu_): mu(mu_) {};
@@ -22,16 +24,14 @@ public:
      * SGD with Nesterov Momentum optimization method
     */
     const MatType update(const MatType& W, const MatType& grad, const double lr) const {
-        std::size_t nrows = W.rows();
-        MatType V(nrows);
-        V.setZero();
-        
-        MatType prev_V(nrows);
-        prev_V = V;
-
-        V = mu * V + static_cast<DataType>(lr) * grad;
-        V = V + mu * (V - prev_V);
-        MatType updated_W = W - V;
+        std::size_t nrows = W.rows(), ncols = W.cols();
+        if (V_.rows() != nrows || V_.cols() != ncols) {
+            V_ = MatType::Zero(nrows, ncols);
+        }
+
+        MatType prev_V = V_;
+        V_ = mu * V_ + static_cast<DataType>(lr) * grad;
+        MatType updated_W = W - (V_ + mu * (V_ - prev_V));
         return updated_W;
     };
 
-- 
2.43.0


From 9f282c04b074700e5817d1935dbdf621ecc74b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 25/79] fix: LBFGS returns an empty coefficient when the
 initial point is already optimal

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From b8aaedcbae460675b33a6d5d4c07fc800c3b4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 26/79] fix: LBFGS compares against objective values it never
 stored, and divides by a zero history length

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..f42306e 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,12 +162,14 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
+            if (past_ > 0 && past_ <= k) {
                 rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
                 if (rate < delta_) {
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
                     break;
                 }
+            }
+            if (past_ > 0) {
                 pfx(k % past_) = fx;
             }
             if ((this->max_iter_ != 0) && (this->max_iter_ < k + 1)) {
-- 
2.43.0


From ca3c40c0262d495208181a0c430730e3c4c4ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 27/79] fix: optimizers and line searches are destroyed through
 a base without a virtual destructor

---
 src/core/optimizer/base.hpp                       | 2 +-
 src/core/optimizer/lbfgs/search_policies/base.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 8d463ff..9a9c591 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -89,7 +89,7 @@ public:
             verbose_(verbose), 
             multi_class_(multi_class) {};
     
-    ~BaseOptimizer() {};
+    virtual ~BaseOptimizer() {};
 
     virtual void optimize(const MatType& X, 
         const VecType& y) = 0;
diff --git a/src/core/optimizer/lbfgs/search_policies/base.hpp b/src/core/optimizer/lbfgs/search_policies/base.hpp
index 3299e20..51ed83f 100644
--- a/src/core/optimizer/lbfgs/search_policies/base.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/base.hpp
@@ -31,7 +31,7 @@ public:
             loss_func_(loss_func), 
             linesearch_params_(linesearch_params) {};
 
-    ~BaseLineSearch() {};
+    virtual ~BaseLineSearch() {};
 
     virtual int search(VecType& x, 
         double& fx, 
-- 
2.43.0


From 7f9ec72e83ff6ddf69e1673f3db7081c6650799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 28/79] fix: lasso regression shares the include guard of ridge
 regression

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..48b4a41 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From 26bea2beca2290e50da31d99de3f74e871a8211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 29/79] fix: LassoRegression trains on the matrix without the
 intercept column

---
 src/methods/linear_model/lasso_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 48b4a41..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
-- 
2.43.0


From 2ec985cf31d4948c999929e058d0f1d1dc875b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 30/79] fix: Perceptron trains on the matrix without the
 intercept column

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From 52d12871ff8adcc6255b986a448be841ab7e2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 31/79] fix: SoftmaxRegression trains on the matrix without the
 intercept column

---
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..a6bc1ab 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
-- 
2.43.0


From 8dda4a45ebb353a16201cb383a91703663971a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 32/79] fix: Perceptron feeds the labels {0, 1} to a loss
 defined over {-1, 1}

---
 src/methods/linear_model/perceptron.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 56f6941..2e2f485 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -44,7 +44,10 @@ protected:
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
-        VecType y_new = y;
+        // the hinge loss expects the labels {0, 1} as {-1, 1}
+        VecType y_new = (y.array() > static_cast<DataType>(0)).select(
+            VecType::Ones(num_samples), -VecType::Ones(num_samples)
+        );
         
         // if intercept term exists, append a colmun into X
         if (this->intercept_) {
-- 
2.43.0


From 1a03caf38d570d1bd8964c48b28892a8713e1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 33/79] fix: SoftmaxRegression ignores its intercept when
 predicting

---
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a6bc1ab..f1a2096 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -87,7 +87,7 @@ protected:
             auto xw = X * this->w_.topRows(num_features);
             // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
             auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = xw + b.colwise().replicate(num_samples);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From 5a7dcfe8fed72d7afdb71c2f397e0e468566374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 34/79] fix: get_coef of a linear model fails for a model with
 several classes

---
 src/methods/linear_model/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/base.hpp b/src/methods/linear_model/base.hpp
index f572e1a..9dd6b91 100644
--- a/src/methods/linear_model/base.hpp
+++ b/src/methods/linear_model/base.hpp
@@ -71,7 +71,7 @@ public:
     ~BaseLinearModel() {};
 
     /**public get_coef interface*/
-    const VecType get_coef() const {
+    const MatType get_coef() const {
         return w_;
     };
 
-- 
2.43.0


From be24293830f35bffc8e8373adcacf6b0ceb3ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 35/79] fix: LogisticRegression predicts the opposite class

---
 src/methods/linear_model/logistic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..8bae720 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From 9e4e1d694e8c07ce0df35d77be67df53f61d3ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 36/79] fix: LogisticRegression class probabilities are not in
 the order of the class labels

---
 src/methods/linear_model/logistic_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 8bae720..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
-- 
2.43.0


From 4b20dd3d81e8d389116f5eace97d6f068b966d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 37/79] fix: LogisticRegression reads hyper-parameters its
 constructors leave uninitialised

---
 .../linear_model/logistic_regression.hpp      | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..7e7480a 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -16,23 +16,23 @@ private:
 
     bool shuffle_;
     bool verbose_;
-    double alpha_;
-    double lambda_;
-    double tol_;
-    double l1_ratio_;
-    double ftol_;
-    double wolfe_;
-    double delta_;
-    std::size_t num_iters_no_change_;
-    std::size_t max_linesearch_; 
-    std::size_t batch_size_;
-    std::size_t max_iter_;
-    std::size_t mem_size_;
-    std::size_t past_;
+    double alpha_ = 0.1;
+    double lambda_ = 0.0;
+    double tol_ = 0.0001;
+    double l1_ratio_ = 1.0;
+    double ftol_ = 1e-4;
+    double wolfe_ = 0.9;
+    double delta_ = 1e-6;
+    std::size_t num_iters_no_change_ = 5;
+    std::size_t max_linesearch_ = 40; 
+    std::size_t batch_size_ = 16;
+    std::size_t max_iter_ = 2000;
+    std::size_t mem_size_ = 8;
+    std::size_t past_ = 3;
     std::string solver_;
     std::string penalty_;
-    std::string linesearch_policy_;
-    std::string linesearch_condition_;
+    std::string linesearch_policy_ = "backtracking";
+    std::string linesearch_condition_ = "WOLFE";
 
 protected:
     /**
-- 
2.43.0


From d2110dd8eb25d9502bdea054ee615776e47b6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 38/79] fix: GaussianMixture appends to the precisions of an
 earlier fit

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..24057c4 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -504,6 +504,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From 0312b5c63424f97755c94e85032f99e8a1e5d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 39/79] fix: GaussianMixture runs on garbage for an unknown
 covariance type or initialisation

---
 src/methods/mixture/gaussian_mixture.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 24057c4..6717895 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -247,6 +247,9 @@ private:
         else if (covariance_type == "tied") {
             covariances = estimate_gaussian_covariances_tied(X, resp, means, nk, reg_covar);
         }
+        else {
+            throw std::invalid_argument("Covariance type should be {full, tied}.");
+        }
         
         return std::make_tuple(covariances, means, nk);
     }
@@ -372,6 +375,9 @@ private:
             MatType sum_resp_tmp = common::repeat<MatType>(sum_resp, num_components_, 1);
             resp = resp.array() / sum_resp_tmp.array();
         }
+        else {
+            throw std::invalid_argument("Init params should be {random}.");
+        }
 
         std::vector<MatType> covariances;
         MatType means;
-- 
2.43.0


From 9106c9d78c9759ed3b9bc1692601da802e080cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 40/79] fix: GaussianNB adds the whole prior matrix to the
 likelihood of one class

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..4fd3d1d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll.array() + lp.col(i).array();
         }
 
         return jll;
-- 
2.43.0


From 9b6cbcd298c903694c9bdb40e3389eee4fc01bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 41/79] fix: naive bayes indexes past the last column when
 there is one feature

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 4fd3d1d..2039dc7 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..5001db7 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
-- 
2.43.0


From 2ff3cdcf1622b6aca77e812d210c6f7fd9f57d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 42/79] fix: GaussianNB get_mean and get_var fail for more than
 one feature

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 2039dc7..251c89d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From f4d0e83352267fe38878e56a5ea41451c6881075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 43/79] fix: MultinomialNB assigns a row of feature counts to a
 column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 5001db7..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From f52f4d0a556b2e097bb7ff28fa6e5bbfcbe203ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 44/79] fix: naive bayes keeps the class counts of an earlier
 fit

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..0932b5f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From 6714182ce12dac3cb02ba73277358a104a40b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 45/79] fix: naive bayes predicts the position of the class
 instead of its label

---
 src/methods/naive_bayes/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index 0932b5f..696bf00 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -104,7 +104,10 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred(num_samples);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            y_pred(i) = classes_(argmax_jll(i));
+        }
         return y_pred;
     }
 
-- 
2.43.0


From a7eab568c6f5943e95be515884beddf1fef13cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 46/79] fix: KMeans assigns a transposed mean to its centroid

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From 309f1cef647d5a7df2385d6c76f9afcc9a0c4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 47/79] fix: KMeans clusters around uninitialised centroids for
 an unknown initialisation

---
 src/methods/cluster/kmeans.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index fe02c1b..067d663 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -118,6 +118,9 @@ protected:
         else if (init_ == "kmeans++") {
             centroids_ = kmeans_plusplus(X);
         }
+        else {
+            throw std::invalid_argument("Init should be {random, kmeans++}.");
+        }
     }
     
 
-- 
2.43.0


From d53860436532a0c0817650ca1aad494d31654a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 48/79] fix: decision trees accept a split that leaves one side
 empty

---
 src/methods/tree/base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..4c98a57 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -63,6 +63,11 @@ protected:
                 std::vector<std::size_t> left_index, right_index;
                 std::tie(left_index, right_index) = data::divide_on_feature<MatType>(X, feature_index, threshold);
 
+                // a split has to leave samples on both sides
+                if (left_index.empty() || right_index.empty()) {
+                    continue;
+                }
+
                 VecType left_y, right_y;
                 left_y = y(left_index);
                 right_y = y(right_index);
-- 
2.43.0


From 80c6890e639892a423a7aceb96192dcf34cc410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 49/79] fix: a decision tree node with only one large enough
 child is followed through a null pointer

---
 src/methods/tree/decision_tree_classifier.hpp | 29 ++++++++++---------
 src/methods/tree/decision_tree_regressor.hpp  | 29 ++++++++++---------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..3b922b4 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -178,9 +178,6 @@ protected:
             return ;
         }
 
-        cur_node->impurity = best_impurity;
-        cur_node->feature_index = best_feature_index;
-        cur_node->feature_value = best_feature_value;
         // std::cout << "best_impurity = " << best_impurity << std::endl;
 
         VecType selected_x = X.col(best_feature_index);
@@ -197,19 +194,23 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
-        if (left_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> left_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->left_child = left_child;
-            build_tree(left_X, left_y, left_child, cur_depth + 1);
+        // the node stays a leaf unless both children hold enough samples
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
         }
 
-        if (right_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> right_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->right_child = right_child;
-            build_tree(right_X, right_y, right_child, cur_depth + 1);
-        }
+        cur_node->is_leaf = false;
+        cur_node->impurity = best_impurity;
+        cur_node->feature_index = best_feature_index;
+        cur_node->feature_value = best_feature_value;
+
+        std::shared_ptr<Node> left_child = std::make_shared<Node>();
+        cur_node->left_child = left_child;
+        build_tree(left_X, left_y, left_child, cur_depth + 1);
+
+        std::shared_ptr<Node> right_child = std::make_shared<Node>();
+        cur_node->right_child = right_child;
+        build_tree(right_X, right_y, right_child, cur_depth + 1);
 
     }
 
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..8aad41c 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -182,9 +182,6 @@ protected:
             return ;
         }
 
-        cur_node->impurity = best_impurity;
-        cur_node->feature_index = best_feature_index;
-        cur_node->feature_value = best_feature_value;
         // std::cout << "best_impurity = " << best_impurity << std::endl;
 
         VecType selected_x = X.col(best_feature_index);
@@ -202,19 +199,23 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
-        if (left_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> left_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->left_child = left_child;
-            build_tree(left_X, left_y, left_child, cur_depth + 1);
+        // the node stays a leaf unless both children hold enough samples
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
         }
 
-        if (right_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> right_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->right_child = right_child;
-            build_tree(right_X, right_y, right_child, cur_depth + 1);
-        }
+        cur_node->is_leaf = false;
+        cur_node->impurity = best_impurity;
+        cur_node->feature_index = best_feature_index;
+        cur_node->feature_value = best_feature_value;
+
+        std::shared_ptr<Node> left_child = std::make_shared<Node>();
+        cur_node->left_child = left_child;
+        build_tree(left_X, left_y, left_child, cur_depth + 1);
+
+        std::shared_ptr<Node> right_child = std::make_shared<Node>();
+        cur_node->right_child = right_child;
+        build_tree(right_X, right_y, right_child, cur_depth + 1);
     }
 
 
-- 
2.43.0


From ab26a3f941443ac82f3dd56d56502027fc8a78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 50/79] fix: DecisionTreeClassifier keeps the classes of an
 earlier fit

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 3b922b4..c689bf1 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -264,6 +264,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From 3c69d87ac4bc0720a0cba2f595b03e7deb4e3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 51/79] fix: DecisionTreeClassifier predicts the position of
 the class instead of its label

---
 src/methods/tree/decision_tree_classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index c689bf1..ad90df2 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -304,7 +304,8 @@ public:
         
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            // the probabilities are ordered by the sorted labels
+            y_pred_value(i) = std::next(label_count_.begin(), index)->first;
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From 2b111d728b6c4a3e12e6242044a01e36927d1283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 52/79] fix: DecisionTreeRegressor weighs the child variances
 by their counts instead of their fractions

---
 src/methods/tree/decision_tree_regressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8aad41c..5950ded 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
-- 
2.43.0


From 7932fb91ebfe177268508296c8c8cb763c5142ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 53/79] fix: DecisionTreeRegressor absolute_error criterion
 fails and omits the absolute value

---
 src/methods/tree/decision_tree_regressor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 5950ded..e9063bc 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -98,17 +98,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
             auto y_bar_sum = math::sum<MatType>(y_bar, -1);
             auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
             auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = (static_cast<double>(y_bar_sum.value()) - 
+                static_cast<double>(left_y_bar_sum.value()) -
+                    static_cast<double>(right_y_bar_sum.value())) / static_cast<double>(num_samples);
 
             impurity = mae;
         }
-- 
2.43.0


From 9641f17bde0e422c32a28bdb52fd5a50a7026069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 54/79] fix: DecisionTreeRegressor compares its threshold with
 a quantity that is not the standard deviation

---
 src/methods/tree/decision_tree_regressor.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index e9063bc..2003da7 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -129,9 +129,8 @@ protected:
         auto y_bar = math::mean<MatType>(y, -1);
         VecType y_centered = y.array() - y_bar.value();
 
-        double stdev_error = std::sqrt(
-            static_cast<double>(y_centered.norm()) / static_cast<double>(num_samples)
-        );
+        double stdev_error = static_cast<double>(y_centered.norm()) / 
+            std::sqrt(static_cast<double>(num_samples));
 
         return std::make_tuple(y_bar.value(), stdev_error); 
     }
-- 
2.43.0


From 4864df6889779624ba1a1998f2bed9801a5866ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 55/79] fix: KDTree bounds the halves of its root along the
 first axis instead of the partition axis

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..d4975bd 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From cd498d6bb5289bf26d5f93010d997deeab2ac718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 56/79] fix: KDTree radius query misses points lying exactly on
 the radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index d4975bd..6dfc43d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From 4da31cb944fd4dc779144455dd7ff8858b4fe605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 57/79] fix: KDTree radius query drops the entry of a query
 without neighbors

---
 src/core/tree/kd_tree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 6dfc43d..48ea849 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -432,9 +432,7 @@ public:
         for(std::size_t i = 0; i < num_samples; ++i) {
             std::vector<NNType> nn;
             nn = query_radius_single_data(data.row(i), radius);
-            if (!nn.empty()) {
-                knn.emplace_back(nn);
-            }
+            knn.emplace_back(nn);
         }
         return knn;
     }
-- 
2.43.0


From bcfafe460b12d96375fed480f7750b21e77120bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 58/79] fix: KDTree reads an uninitialised metric for an
 unknown metric name

---
 src/core/tree/kd_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 48ea849..bdbf012 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -384,6 +384,9 @@ public:
         else if (metric == "chebyshev") {
             ord_ = Eigen::Infinity;
         }
+        else {
+            throw std::invalid_argument("The metric should be {manhattan, euclidean, chebyshev}.");
+        }
 
         build_tree();
     };
-- 
2.43.0


From fea04833f45bc99b417ba54fddfe895e41baf5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 59/79] fix: KNearestNeighbors does not compile

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..8707e32 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -29,13 +29,13 @@ private:
     std::unique_ptr<tree::KDTree<DataType>> tree_;
 
 protected:
-    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& samples) {
+    DataType brute_force(const MatType& X, const ColVecType& y, const RowVecType& sample) {
         
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
-- 
2.43.0


From e8b924c4933ce77e78a08b2f4b1ad97b0afa12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 60/79] fix: KNearestNeighbors votes across the queries instead
 of across the neighbors

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 8707e32..3c243dc 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0


From 1ecaf3e33dd4e9e0145dcc21a034c8107abb882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 61/79] fix: KNearestNeighbors brute force never finds a winner
 of the vote

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 3c243dc..e386d57 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
-- 
2.43.0


From f8d41a232964d2305d262c455ac10f4b75eea5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:29 +0000
Subject: [PATCH 62/79] fix: KNearestNeighbors silently ignores an unknown
 solver

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index e386d57..9cc9796 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -104,6 +104,9 @@ public:
         else if (solver_ == "brute") {
             X_ = X;
         }
+        else {
+            throw std::invalid_argument("The solver should be {kdtree, brute}.");
+        }
         y_ = y;
         
     }
-- 
2.43.0


From 7ff599ede09e043d21e89c39cf6ba63171ddd2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 63/79] fix: HashTree reports the itemsets of earlier queries
 again

---
 src/core/tree/hash_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tree/hash_tree.hpp b/src/core/tree/hash_tree.hpp
index 87f2b08..a0e19c7 100644
--- a/src/core/tree/hash_tree.hpp
+++ b/src/core/tree/hash_tree.hpp
@@ -111,6 +111,8 @@ public:
         std::vector<std::size_t>& count_list,
         std::vector<std::vector<DataType>>& itemset_list) {
     
+        count_list_.clear();
+        itemset_list_.clear();
         dfs(root_, support);
         count_list = count_list_;
         itemset_list = itemset_list_;
-- 
2.43.0


From c8991610d98bfbfe679fd4f3881ea3c4aeaa406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 64/79] fix: Apriori throws when no itemset of some length is
 frequent

---
 src/methods/rule_model/apriori.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 1bba590..581e98d 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -132,6 +132,9 @@ protected:
             }
 
             std::size_t num_candidates = candidates.size();
+            if (num_candidates == 0) {
+                break;
+            }
             // init hash tree
             tree::HashTree<HashTreeNode, DataType> hash_tree(num_candidates, num_candidates);
             for (auto candidate : candidates) {
@@ -162,6 +165,10 @@ protected:
             }
 
             all_frequency_.insert(all_frequency_.end(), curr_frequency.begin(), curr_frequency.end());
+            // no frequent itemset of this length, hence none of any larger one
+            if (itemsets_list.empty()) {
+                break;
+            }
             prev_frequency = common::sortrows<DataType>(itemsets_list);
 
             ++length;
-- 
2.43.0


From 986f50c62acea778bf017b7144ecece957172047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 65/79] fix: Apriori miscounts itemsets of unsorted or
 repeating transactions

---
 src/methods/rule_model/apriori.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index 581e98d..e044cd7 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -61,7 +61,14 @@ private:
 
 
 protected:
-    void fit_data(const std::vector<std::vector<DataType>>& X) {    
+    void fit_data(const std::vector<std::vector<DataType>>& transactions) {
+        // an itemset is a sorted list of distinct items, so is a transaction
+        std::vector<std::vector<DataType>> X = transactions;
+        for (auto& x : X) {
+            std::sort(x.begin(), x.end());
+            x.erase(std::unique(x.begin(), x.end()), x.end());
+        }
+
         std::size_t support = static_cast<std::size_t>(X.size() * min_support_);
     
         std::vector<DataType> records_order;
@@ -74,6 +81,8 @@ protected:
             }
         }
 
+        std::sort(records_order.begin(), records_order.end());
+
         preprocessing::TransactionEncoder<std::size_t> transaction_encoder;
         SpMatType sp_mat = transaction_encoder.fit_transform(X);
         std::unordered_map<DataType, std::size_t> all_records;
-- 
2.43.0


From 92787cc40fb3bb9ba734b6d4db20e488f696e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 66/79] fix: Apriori keeps the itemsets and rules of an earlier
 fit

---
 src/methods/rule_model/apriori.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/rule_model/apriori.hpp b/src/methods/rule_model/apriori.hpp
index e044cd7..8c09c51 100644
--- a/src/methods/rule_model/apriori.hpp
+++ b/src/methods/rule_model/apriori.hpp
@@ -62,6 +62,9 @@ private:
 
 protected:
     void fit_data(const std::vector<std::vector<DataType>>& transactions) {
+        all_frequency_.clear();
+        association_rules_.clear();
+
         // an itemset is a sorted list of distinct items, so is a transaction
         std::vector<std::vector<DataType>> X = transactions;
         for (auto& x : X) {
-- 
2.43.0


From ca07915baa4ed544ee8ca8dec9d3355c31082298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 67/79] fix: TruncatedSVD silently ignores an unknown solver

---
 src/methods/decomposition/truncated_svd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/decomposition/truncated_svd.hpp b/src/methods/decomposition/truncated_svd.hpp
index ed74eaa..1510143 100644
--- a/src/methods/decomposition/truncated_svd.hpp
+++ b/src/methods/decomposition/truncated_svd.hpp
@@ -42,6 +42,9 @@ protected:
                 true);
             X_transformed = X * Vt.transpose();
         }
+        else {
+            throw std::invalid_argument("Got an unknown solver, only 'randomized' is available.");
+        }
 
         // compute variance of each faeture along axis = 0
         double full_var;
-- 
2.43.0


From 68161c5f3ed17b25207704e91f461f547e0ff61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 68/79] fix: PCA silently ignores an unknown solver

---
 src/methods/decomposition/pca.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..cd4643d 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -50,7 +50,10 @@ protected:
 
             explained_var = math::power<VecType>(s, 2.0) / (static_cast<DataType>(num_samples) - 1.);
             components = Vt;
-        };
+        }
+        else {
+            throw std::invalid_argument("Got an unknown solver, only 'svd' is available.");
+        }
 
         VecType total_var = math::sum<MatType>(explained_var);
         explained_var_ratio = explained_var / total_var.value();
-- 
2.43.0


From 93a69c78902cd51851571ad47a6de0f7557aee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 69/79] fix: PCA centers new data around its own mean instead
 of the mean of the training data

---
 src/methods/decomposition/pca.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index cd4643d..f5fb37b 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,11 +28,14 @@ private:
 
     std::string solver_;
     double noise_var_;
+    VecType mean_;
 
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        mean_ = X.colwise().mean().transpose();
+
         MatType centered_X;
         centered_X = math::center<MatType>(X);
         
@@ -76,7 +79,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.transpose();
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -150,7 +153,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.transpose();
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From 3f1399ec81d01338e62fe6f238be1ae1bf3376bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 70/79] fix: PCA precision depends on an earlier call of
 get_covariance

---
 src/methods/decomposition/pca.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index f5fb37b..54d2b2b 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -182,6 +182,7 @@ public:
      * 
     */
     const MatType get_precision() {
+        compute_data_covariance();
         compute_precision_matrix();
         return this->precision_;
     }
-- 
2.43.0


From 109d2d84878af9219117d6a12992bd78443ab9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 71/79] fix: PCA score uses a missing or stale precision matrix

---
 src/methods/decomposition/pca.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 54d2b2b..28d72ec 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -73,6 +73,10 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        // the score needs the precision of this model
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From 66fc28e80c73cecccbd575e4879454ca4d0b5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 72/79] fix: loadtxt mixes the file with the previous contents
 of its output vectors

---
 src/core/data/load.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index f78ee87..92c9977 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -64,6 +64,7 @@ void loadtxt(const std::string &fp,
         throw std::runtime_error("Input file could not be opened.");
         exit(0);
     }
+    X.clear();
     for (std::string line; std::getline(fin, line); ) {
         std::stringstream str_stream(line);
         std::vector<DataType> row;
@@ -112,6 +113,8 @@ void loadtxt(const std::string &fp,
     }
 
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
+    X.clear();
+    y.clear();
     X.resize(nrows, std::vector<DataType>(ncols - 1));
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
-- 
2.43.0


From 31b4288f6e49d1635986258c3742793c4857ef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 73/79] fix: exact_svd falls back on JacobiSVD when BDCSVD does
 not reproduce the matrix

---
 src/core/math/linalg.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 03e0801..0a5f3dc 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -124,14 +124,22 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
     // control the switching size, default is 16
     // For small matrice (<16), it is thus preferable to directly use JacobiSVD. 
     // For larger matrice, BDCSVD
-    if (num_features < 16) {
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(x, options);
+    bool use_jacobi = num_features < 16;
+    if (!use_jacobi) {
+        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
+
+        // the deflation step of BDCSVD may break down on matrices with repeated or 
+        // zero rows, fall back on JacobiSVD when the factors do not reproduce x
+        std::size_t rank = s.rows();
+        double residual = (U.leftCols(rank) * s.asDiagonal() * 
+            V.leftCols(rank).transpose() - x).norm();
+        use_jacobi = !(residual <= 1e-10 * x.norm());
     }
-    else {
-        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
+    if (use_jacobi) {
+        Eigen::JacobiSVD<Eigen::MatrixXd> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
-- 
2.43.0


From 686501c9c6ed57da5ba18b1b5a9776b22f9c92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 74/79] fix: var loses all digits of the variance when the mean
 is large

---
 src/core/math/ops.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 1ee6c51..7fcb725 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -38,26 +38,23 @@ AnyType cov(const AnyType& x) {
 template<typename MatType>
 MatType var(const MatType& x, int axis = -1) {
     MatType copy_x = x;
-    // Var(X)=E[X^2]-(E[X])^2
+    // Var(X)=E[(X-E[X])^2], the difference of the two moments cancels
     if (axis == 0) {
-        auto colmean = copy_x.colwise().mean();                                      
-        auto x_squared_mean = copy_x.array().square().colwise().mean();
-        auto colvar = x_squared_mean.array() - colmean.array().square();
+        auto colmean = copy_x.colwise().mean().eval();
+        MatType centered = copy_x.rowwise() - colmean;
 
-        return colvar; 
+        return centered.array().square().colwise().mean();
     }
     else if (axis == 1) {
-        auto rowmean = copy_x.rowwise().mean();
-        auto x_squared_mean = copy_x.array().square().rowwise().mean();
-        auto rowvar = x_squared_mean.array() - rowmean.array().square();
+        auto rowmean = copy_x.rowwise().mean().eval();
+        MatType centered = copy_x.colwise() - rowmean;
 
-        return rowvar;
+        return centered.array().square().rowwise().mean();
     }
     else if (axis == -1) {
         auto mean = copy_x.mean();
-        auto x_squared_mean = copy_x.array().square().mean();
         MatType var(1, 1);
-        var(0, 0) = x_squared_mean - std::pow(mean, 2);
+        var(0, 0) = (copy_x.array() - mean).square().mean();
         return var;
     }
     else {
-- 
2.43.0


From 52b7ecd02c39ec7ed55bbeb285ab2379a11ec373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 75/79] fix: GaussianMixture with tied covariance fails for
 more than one component

---
 src/methods/mixture/gaussian_mixture.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 6717895..ceb5f7e 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -270,6 +270,11 @@ private:
         std::size_t num_components = means.rows();
 
         VecType log_det = compute_log_det_cholesky(precisions_cholesky_);
+        if (covariance_type_ == "tied") {
+            // the components share one matrix
+            DataType shared_log_det = log_det(0);
+            log_det = VecType::Constant(num_components, shared_log_det);
+        }
 
         MatType log_prob(num_samples, num_components);
 
-- 
2.43.0


From ad55d906fce8fb2029ee7130c401589aedfa793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 76/79] fix: KDTree never stops splitting when the leaf size is
 zero

---
 src/core/tree/kd_tree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index bdbf012..1cbf3c3 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -388,6 +388,11 @@ public:
             throw std::invalid_argument("The metric should be {manhattan, euclidean, chebyshev}.");
         }
 
+        // halving a node ends only once its leaf can hold a sample
+        if (leaf_size < 1) {
+            throw std::invalid_argument("The leaf size should be at least 1.");
+        }
+
         build_tree();
     };
 
-- 
2.43.0


From 0a041fc0bdfc14996baf34f5cf76c9e69d25a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 77/79] fix: KDTree reports made-up neighbors when more are
 asked for than there are samples

---
 src/core/tree/kd_tree.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 1cbf3c3..4cee370 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -412,6 +412,12 @@ public:
         const MatType& data, 
         std::size_t k) const {
         
+        if (k < 1 || k > static_cast<std::size_t>(data_.rows())) {
+            throw std::invalid_argument(
+                "The number of neighbors should be in [1, number of samples]."
+            );
+        }
+
         std::size_t num_samples = data.rows();
         MatType distances(num_samples, k);
         IdxMatType indices(num_samples, k);
-- 
2.43.0


From f13be819441537309a4e34468ef365ac781843f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:28 +0000
Subject: [PATCH 78/79] fix: PCA reads past the singular values when asked for
 too many components

---
 src/methods/decomposition/pca.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 28d72ec..a228f81 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -33,6 +33,11 @@ private:
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
+        if (this->num_components_ > std::min(num_samples, num_features)) {
+            throw std::invalid_argument(
+                "The number of components should be at most min(n_samples, n_features)."
+            );
+        }
 
         mean_ = X.colwise().mean().transpose();
 
-- 
2.43.0


From 4bbe2ffb35cf955c7c54fdf5a1b588c1d0df10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:52 +0000
Subject: [PATCH 79/79] fix: destroying a copy of a KDTree no longer empties
 the original

---
 src/core/tree/kd_tree.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 4cee370..65e3984 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -402,11 +402,8 @@ public:
             build_tree();
         };
 
-    ~KDTree() {
-        if (tree_ != nullptr) {
-            tree_->clear();
-        }
-    };
+    // copies of a tree share its nodes, which are released with the last of them
+    ~KDTree() {};
 
     const std::pair<MatType, IdxMatType> query(
         const MatType& data, 
-- 
2.43.0

