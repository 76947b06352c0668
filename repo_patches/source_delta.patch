From be1a4e8a462ebbdd596e4fcd2d78b51b73267915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 1/9] fix: declare the VectorView<double>::Normalize
 specialization before it is used

Without the declaration other translation units instantiate the primary
template, which throws; optimised builds crash when Normalize is called.
---
 include/vectorview.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..3c2ff8e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,9 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From 4018abab594543cc1b23fc106717a2ab062e259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 2/9] fix: initialise size_set_ in the CooMatrix and LilMatrix
 move constructors

swap() read the indeterminate flag of the object under construction and
left it in the moved-from object.
---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..efb6762 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -281,6 +281,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..fde6d75 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From b33275313556582a1c7e3aff8a7ffa899e1c74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 3/9] fix: allow empty row and column ranges at the matrix
 boundary in sub-block access

---
 src/densematrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..0130487 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -450,8 +450,8 @@ DenseMatrix DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int e
 
 void DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int end_j, DenseMatrix& dense) const
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -506,8 +506,8 @@ void DenseMatrix::SetSubMatrix(int start_i, int start_j, const DenseMatrix& dens
 
 void DenseMatrix::SetSubMatrix(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -531,8 +531,8 @@ void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, const DenseMat
 
 void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
-- 
2.43.0


From 5c2cedd87691bd9cea42302ad215bc1da39e72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 4/9] fix: pass leading dimensions of at least one to dgemm for
 matrices without rows

---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 0130487..83376f2 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,14 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(1, rows_);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(1, input.Rows());
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
+    int ldc = std::max(1, output.Rows());
 
 
     dgemm_(&transA, &transB, &m, &n, &k,
-- 
2.43.0


From 6eacebb74e50509aeb6e314901b03d5e615d146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 5/9] fix: size checks of CooMatrix::Mult and MultAT work for
 automatic sizes and use the right dimension

---
 include/coomatrix.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index efb6762..28df677 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -637,8 +637,12 @@ SparseMatrix<U> CooMatrix<T>::ToSparse() const
 template <typename T>
 void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    int rows;
+    int cols;
+    std::tie(rows, cols) = FindSize();
+
+    assert(rows == output.size());
+    assert(cols == input.size());
 
     output = 0;
 
@@ -655,8 +659,12 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    int rows;
+    int cols;
+    std::tie(rows, cols) = FindSize();
+
+    assert(rows == input.size());
+    assert(cols == output.size());
 
     output = 0;
 
-- 
2.43.0


From e21d686b0c705279db4f7f401d8853fde4d95a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:23 +0000
Subject: [PATCH 6/9] fix: EliminateZeros of CooMatrix and LilMatrix drops
 exact zeros with the default tolerance

---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 28df677..c416366 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -701,7 +701,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index fde6d75..c310827 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -487,7 +487,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From 3c266abf5cf4a8a135e8e2ce2575ec3913a71d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:30 +0000
Subject: [PATCH 7/9] fix: LilMatrix sizes: SetSize allocates the rows,
 FindSize counts them, MultAT checks the right dimensions

---
 include/lilmatrix.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index c310827..c1906e4 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -254,6 +254,8 @@ void LilMatrix<T>::SetSize(int rows, int cols)
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows_);
 }
 
 template <typename T>
@@ -435,8 +437,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Rows() == input.size());
+    assert(Cols() == output.size());
 
     output = 0;
 
@@ -501,7 +503,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         return std::tuple<int, int> {rows_, cols_};
     }
 
-    const int rows = entries_.size();
+    const int rows = std::max<int>(1, entries_.size());
     int cols = 0;
 
     for (const auto& row : entries_)
@@ -512,7 +514,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols + 1};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From c585b235936e48304ffe6af26df3a9bae6e80d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 8/9] fix: BlockMatrix::Transpose transposes each block and
 skips unset ones

---
 include/blockmatrix.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..951a16e 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,14 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& mat = GetBlock(i, j);
+
+            if (mat.Rows() == 0 || mat.Cols() == 0)
+            {
+                continue;
+            }
+
+            transpose.SetBlock(j, i, mat.Transpose());
         }
     }
 
-- 
2.43.0


From 8aa906aa8f0ce4f169dadff3ba535077e3aeba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:15 +0000
Subject: [PATCH 9/9] fix: PCG stops on an exact guess and reports at most
 max_iter iterations

---
 src/solvers.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..c53a950 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -171,7 +171,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     num_iter_ = 1;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
+    if ((*Dot_)(z_, r_) <= tol_tol)
     //if ((*Dot_)(r_, r_) < tol_tol)
     {
         return;
@@ -209,7 +209,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol || num_iter_ >= max_iter_)
         {
             break;
         }
@@ -218,8 +218,10 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
         p_ *= beta;
         p_ += z_;
+
+        ++num_iter_;
     }
-    while (++num_iter_ < max_iter_);
+    while (true);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0

