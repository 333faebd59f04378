From 3da76ee686d346bf126fb5ffa4b2638fd72cf216 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 01/51] fix: auto-sized LilMatrix reports one row too many and
 yields invalid row pointers

---
 include/lilmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..fdc9725 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -500,7 +500,7 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
         return std::tuple<int, int> {rows_, cols_};
     }
 
-    const int rows = entries_.size();
+    const int rows = std::max(static_cast<int>(entries_.size()) - 1, 0);
     int cols = 0;
 
     for (const auto& row : entries_)
-- 
2.43.0


From 9c6e9000fbf4dcb237f78d4c6b5f4b9e011c7ae2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 02/51] fix: LilMatrix::SetSize allocates its rows

---
 include/lilmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index fdc9725..03e1f76 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -253,6 +253,8 @@ void LilMatrix<T>::SetSize(int rows, int cols)
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows_);
 }
 
 template <typename T>
-- 
2.43.0


From 0f316366442b2f8a5b850c701b6398c93326eef9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 03/51] fix: moved-from CooMatrix and LilMatrix keep a defined
 size flag

---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..efb6762 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -281,6 +281,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 03e1f76..a75864a 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 80138f4cf39eb94cc1f75636ee57c683e9eea3c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 04/51] fix: EliminateZeros of CooMatrix and LilMatrix removes
 zeros by default

---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index efb6762..63525c8 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -693,7 +693,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index a75864a..5a65888 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -489,7 +489,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From a96ee43c383f363af5da5087133384bc8c5eed13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 05/51] fix: auto-sized CooMatrix reports its size, so it can
 be applied to a vector

---
 include/coomatrix.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 63525c8..64adcfb 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows.
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the maximum element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns.
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the maximum element
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -303,6 +321,24 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    int rows;
+    std::tie(rows, std::ignore) = FindSize();
+
+    return rows;
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    int cols;
+    std::tie(std::ignore, cols) = FindSize();
+
+    return cols;
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
-- 
2.43.0


From cdde42873bde5a6db98d57488383ce455e2dac4f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 06/51] fix: Add(x, y, z) and Sub(x, y, z) do not read the old
 contents of z

---
 include/vectorview.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..17707f1 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -838,7 +838,15 @@ void Add(T alpha, const VectorView<T>& x, T beta, const VectorView<T>& y, T gamm
 template <typename T>
 void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, 1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] + y[i];
+    }
 }
 
 /*! @brief Compute z = x - y
@@ -849,7 +857,15 @@ void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 template <typename T>
 void Sub(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, -1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] - y[i];
+    }
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 28031f0ea347fd2a279b6219055f0f6bf9584ee8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 07/51] fix: VectorView index operator rejects negative indices
 in checked builds

---
 include/vectorview.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 17707f1..018f515 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -319,6 +319,7 @@ const T* VectorView<T>::end() const
 template <typename T>
 T& VectorView<T>::operator[](int i)
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
@@ -327,6 +328,7 @@ T& VectorView<T>::operator[](int i)
 template <typename T>
 const T& VectorView<T>::operator[](int i) const
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
-- 
2.43.0


From 774bdf150f25b0569edf2030c49928beb147c864 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 08/51] fix: dense products with a zero dimension do not abort
 the process

---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..da2e287 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,14 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(rows_, 1);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(input.Rows(), 1);
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
+    int ldc = std::max(output.Rows(), 1);
 
 
     dgemm_(&transA, &transB, &m, &n, &k,
-- 
2.43.0


From 8a00536cc99b3d5819c4b15f78dc0ceed295df5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 09/51] fix: empty ranges at the end of a DenseMatrix are valid
 submatrices

---
 src/densematrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index da2e287..7826e30 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -450,8 +450,8 @@ DenseMatrix DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int e
 
 void DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int end_j, DenseMatrix& dense) const
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -506,8 +506,8 @@ void DenseMatrix::SetSubMatrix(int start_i, int start_j, const DenseMatrix& dens
 
 void DenseMatrix::SetSubMatrix(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -531,8 +531,8 @@ void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, const DenseMat
 
 void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
-- 
2.43.0


From 4f23d939db2114f1cb3f688f5d3e9f23e589ef88 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 10/51] fix: DenseMatrix::QR of a wide matrix overflows the
 pivot array

---
 src/densematrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 7826e30..42c6373 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -655,7 +655,7 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
@@ -664,14 +664,16 @@ void DenseMatrix::QR()
     const int* k = &mn_min;
 
     lwork = -1;
-    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), &qwork, &lwork, &info);
     lwork = static_cast<int>(qwork);
 
     work.resize(lwork);
 
-    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
     assert(info == 0);
+
+    SetSize(rows, mn_min);
 }
 
 void DenseMatrix::Invert(DenseMatrix& inv) const
-- 
2.43.0


From 49a4d826e3a5182d4e6a209d1e6e2087f489828b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 11/51] fix: BlockMatrix::Transpose transposes its blocks

---
 include/blockmatrix.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..ede7cea 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,15 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& mat = GetBlock(i, j);
+
+            // Unset blocks stay unset
+            if (mat.Rows() == 0 || mat.Cols() == 0)
+            {
+                continue;
+            }
+
+            transpose.SetBlock(j, i, mat.Transpose());
         }
     }
 
-- 
2.43.0


From 2fcf49d647ad02187b7ed0c7274b83d692e69daa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 12/51] fix: BlockMatrix::Combine compiles for every entry type

---
 include/blockmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index ede7cea..459cd9f 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -244,7 +244,7 @@ SparseMatrix<T> BlockMatrix<T>::Combine() const
 
     std::vector<int> indptr(rows_ + 1);
     std::vector<int> indices(nnz);
-    std::vector<double> data(nnz);
+    std::vector<T> data(nnz);
 
     indptr[0] = 0;
 
-- 
2.43.0


From 22829326ad1d218e123a87e1ff2e04a941ce70b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 13/51] fix: EigenSolver asked for more eigenvectors than exist
 reads out of bounds

---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..4bad87c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From 8a63cd4e8d43f4fcd81e1bc4f1eae8db463b7c30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 14/51] fix: PCGSolver accepts an exact initial guess and
 reports the iterations it performed

---
 src/solvers.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..ed19834 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,16 +169,18 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
+    if ((*Dot_)(z_, r_) <= tol_tol)
     //if ((*Dot_)(r_, r_) < tol_tol)
     {
         return;
     }
 
-    do
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -209,7 +211,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
@@ -219,7 +221,6 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From 724726a1c8a18199db576aef1a1371ec33cb6f6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 15/51] fix: MINRES solvers accept an exact initial guess and
 report the iterations they performed

---
 src/solvers.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ed19834..3074503 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -308,8 +308,17 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         A_->Mult(v1_, q_);
 
@@ -351,7 +360,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -458,8 +467,17 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
+    num_iter_ = 0;
+
+    if (beta <= tol)
     {
+        return;
+    }
+
+    while (num_iter_ < max_iter_)
+    {
+        ++num_iter_;
+
         v1_ /= beta;
         u1_ /= beta;
 
@@ -504,7 +522,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From 15319a6709b26a57675ed3931b0a81ad3f22f6ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 16/51] fix: Solver::SetOperator on a default solver fails its
 assertion instead of crashing

---
 src/solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 3074503..e8ccc8b 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -63,6 +63,7 @@ void Solver::SetAbsTol(double abs_tol)
 
 void Solver::SetOperator(const Operator& A)
 {
+    assert(A_);
     assert(A.Rows() == A_->Rows());
     assert(A.Cols() == A_->Cols());
 
-- 
2.43.0


From 41e4647abe7143413cfe8bee4cb0532aa03eed37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 17/51] fix: WriteCooList accepts every entry type

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..34b30d0 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -370,7 +370,7 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
 
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
-- 
2.43.0


From d9e3efb11e799c1f1fe5726f42a346e889b1990c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 18/51] fix: text writers print enough digits to read back the
 same value

---
 include/parser.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 34b30d0..21e79ba 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -54,7 +54,7 @@ void WriteText(const T& vect, const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    file.precision(16);
+    file.precision(17);
 
     for (const auto& val : vect)
     {
@@ -368,6 +368,8 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
+    file.precision(17);
+
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
     const std::vector<T>& data = mat.GetData();
@@ -554,7 +556,7 @@ void WriteCSR(const SparseMatrix<T>& mat, const std::string& file_name)
         file << i << "\n";
     }
 
-    file.precision(16);
+    file.precision(17);
 
     for (auto i : data)
     {
@@ -707,7 +709,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     int cols = mat.Cols();
     int nnz = mat.nnz();
 
-    file.precision(16);
+    file.precision(17);
     file << "%MatrixMarket matrix coordinate real general\n";
     file << rows << " " << cols << " " << nnz <<  "\n";
 
-- 
2.43.0


From c1817fbc6c01f700616d6f161503e9035622f4e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 19/51] fix: WriteMTX writes the standard Matrix Market banner

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 21e79ba..ee93f6e 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -710,7 +710,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     int nnz = mat.nnz();
 
     file.precision(17);
-    file << "%MatrixMarket matrix coordinate real general\n";
+    file << "%%MatrixMarket matrix coordinate real general\n";
     file << rows << " " << cols << " " << nnz <<  "\n";
 
     const std::vector<int>& indptr = mat.GetIndptr();
-- 
2.43.0


From 074d9c44cdd4ad93763817acc4c73fe881cd908e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 20/51] fix: binary reading and writing of empty objects does
 not index empty vectors

---
 include/parser.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index ee93f6e..3e7f188 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -81,7 +81,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     size_t size = vect.size();
 
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
-    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
+    file.write(reinterpret_cast<const char*>(vect.data()), size * sizeof(T));
 
     file.close();
 }
@@ -107,7 +107,7 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     std::vector<T> vect(size);
 
-    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
     file.close();
 
     return vect;
@@ -143,9 +143,9 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
     file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
 
-    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
+    file.write(reinterpret_cast<const char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.write(reinterpret_cast<const char*>(indices.data()), nnz * sizeof(int));
+    file.write(reinterpret_cast<const char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 }
@@ -179,9 +179,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
-    file.read(reinterpret_cast<char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
-    file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
+    file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
+    file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 
-- 
2.43.0


From 5905d8cd932451d0aa2c12f16ae8c362fb63dc1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 21/51] fix: ReadTable of a file without entries dereferences
 the end iterator

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 3e7f188..e02ed11 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -429,7 +429,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From 5381108823fd59ab1b826bc5a517a06959d6426c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 22/51] fix: readers of binary and CSR files report truncated
 files

---
 include/parser.hpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/parser.hpp b/include/parser.hpp
index e02ed11..28bb5ff 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -105,9 +105,19 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
     size_t size = 0;
     file.read(reinterpret_cast<char*>(&size), sizeof(size));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     std::vector<T> vect(size);
 
     file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
+
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
     file.close();
 
     return vect;
@@ -175,6 +185,11 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(&cols), sizeof(cols));
     file.read(reinterpret_cast<char*>(&nnz), sizeof(nnz));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     std::vector<int> indptr(rows + 1);
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
@@ -183,6 +198,11 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
     file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);
@@ -493,6 +513,11 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
 
     file >> rows >> cols;
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     std::vector<int> indptr(rows + 1);
 
     for (size_t i = 0; i < rows + 1; ++i)
@@ -500,6 +525,11 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> indptr[i];
     }
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     int nnz = indptr.back();
 
     std::vector<int> indices(nnz);
@@ -515,6 +545,11 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> data[i];
     }
 
+    if (!file)
+    {
+        throw std::runtime_error("Failed to read file: " + file_name);
+    }
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data),
-- 
2.43.0


From 45f2f0b66f31d91580a074e72ca41c68f1ee2653 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 23/51] fix: Partition of a graph with fewer entries than
 vertices

---
 modules/partition/include/partition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..e7fc5ac 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,7 +17,7 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
+    const int num_edges = mat.nnz();
 
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
-- 
2.43.0


From 79b4a7b6bd13c8629ec384b5bc2be4ab9b0fb482 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 24/51] fix: copied and moved SparseSolver never free an
 uninitialised factorization

---
 modules/sparsesolver/src/sparsesolve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index b354fd5..ab03cd9 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -18,7 +18,8 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
 }
 
 SparseSolver::SparseSolver(const SparseSolver& other) noexcept
-    : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
+    : Operator(other), A_(other.A_), numeric_(nullptr),
+      control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
     {
@@ -27,6 +28,7 @@ SparseSolver::SparseSolver(const SparseSolver& other) noexcept
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
+    : numeric_(nullptr)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 540610a7419eff0b7ae2ce8b1ec37710a5bef358 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 25/51] fix: BlockVector rejects data that does not match its
 offsets in checked builds

---
 include/blockvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 9751a64..d26d75b 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -89,6 +89,7 @@ template <typename T>
 BlockVector<T>::BlockVector(const VectorView<T>& data, std::vector<int> offsets)
     : Vector<T>(data), offsets_(offsets)
 {
+    assert(data.size() == offsets_.back());
 
 }
 
-- 
2.43.0


From 5e814411c3fac023ab2602e03372cf1b17dff1ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 26/51] fix: CooMatrix and LilMatrix MultAT check the
 transposed sizes

---
 include/coomatrix.hpp | 4 ++--
 include/lilmatrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 64adcfb..ab83b2d 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -691,8 +691,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 5a65888..46a0c45 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -437,8 +437,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
-- 
2.43.0


From fd46ef7f5c7c5ed954172a8e34d86c1879961ca1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 27/51] fix: EigenSolver eigenvectors of matrices that decouple

dstein was told that the tridiagonal matrix is one unreduced block, which
gave NaN or non-orthogonal eigenvectors for zero and decoupled matrices.
dsyev computes the pairs without that assumption.
---
 include/eigensolver.hpp | 15 +------
 src/eigensolver.cpp     | 87 +++++------------------------------------
 2 files changed, 11 insertions(+), 91 deletions(-)

diff --git a/include/eigensolver.hpp b/include/eigensolver.hpp
index 24ccaed..8066ffb 100644
--- a/include/eigensolver.hpp
+++ b/include/eigensolver.hpp
@@ -82,10 +82,8 @@ class EigenSolver
     private:
         void AllocateWorkspace(int size);
 
+        char jobz_;
         char uplo_;
-        char side_;
-        char trans_;
-        double abstol_;
 
         int info_;
         int alloc_size_;
@@ -93,17 +91,6 @@ class EigenSolver
 
         std::vector<double> A_;
         std::vector<double> work_;
-        std::vector<int> iwork_;
-
-        // Triangularization info
-        std::vector<double> d_;
-        std::vector<double> e_;
-        std::vector<double> tau_;
-
-        // Block info for dstein_ / dormtr_
-        std::vector<int> iblock_;
-        std::vector<int> isplit_;
-        std::vector<int> ifail_;
 };
 
 } //namespace linalgcpp
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 4bad87c..7230887 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -2,27 +2,9 @@
 
 extern "C"
 {
-    void dgesvd_(const char* jobu, const char* jobvt, const int* m,
-                 const int* n, double* a, const int* lda, double* s,
-                 double* u, const int* ldu, double* vt, const int* ldvt,
-                 double* work, const int* lwork, int* info);
-
-    void dsytrd_(char* uplo, const int* n, double* a, const int* lda,
-                 double* d, double* e, double* tau, double* work,
-                 int* lwork, int* info );
-
-    void dsterf_(const int* n, double* d, double* e, int* info);
-
-    void dstein_(const int* n, const double* d, const double* e,
-                 int* m, const double* w, const int* iblock,
-                 const int* isplit, double* z, const int* ldz,
-                 double* work, int* iwork, int* ifailv,
-                 int* info);
-
-    void dormtr_(char* side, char* uplo, char* trans, const int* m,
-                 const int* n, const double* a, const int* lda,
-                 const double* tau, double* c, const int* ldc, double* work,
-                 int* lwork, int* info);
+    void dsyev_(const char* jobz, const char* uplo, const int* n, double* a,
+                const int* lda, double* w, double* work, const int* lwork,
+                int* info);
 }
 
 
@@ -30,9 +12,7 @@ namespace linalgcpp
 {
 
 EigenSolver::EigenSolver()
-    : uplo_('U'), side_('L'), trans_('N'),
-      abstol_(2 * std::numeric_limits<double>::min()),
-      info_(0), alloc_size_(-1), lwork_(-1)
+    : jobz_('V'), uplo_('U'), info_(0), alloc_size_(-1), lwork_(-1)
 {
 }
 
@@ -81,17 +61,10 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     mat.CopyData(A_);
     double* a = A_.data();
 
-    // Triangularize A = Q * T * Q^T
-    dsytrd_(&uplo_, &n, a, &n, d_.data(), e_.data(), tau_.data(), work_.data(),
-            &lwork_, &info_ );
+    // Compute all eigenpairs, the eigenvectors replace A
+    dsyev_(&jobz_, &uplo_, &n, a, &n, evals.data(), work_.data(), &lwork_, &info_);
 
-    // d_ and e_ changed by dsterf_
-    // copy since they are needed for dstein_
-    std::copy_n(std::begin(d_), n, std::begin(evals));
-    auto e_copy = e_;
-
-    // Compute all eigenvalues
-    dsterf_(&n, evals.data(), e_copy.data(), &info_);
+    assert(info_ == 0);
 
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
@@ -108,27 +81,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
         ++m;
     }
 
-    ifail_.resize(m);
-    isplit_[0] = n;
-
     evects.SetSize(n, m);
-    //std::vector<double> evect_data(n * m);
-
-    // Calculate Eigenvectors of T
-    dstein_(&n, d_.data(), e_.data(),
-            &m, evals.data(), iblock_.data(),
-            isplit_.data(), evects.GetData(), &n,
-            work_.data(), iwork_.data(), ifail_.data(),
-            &info_);
-
-    // Compute Q * (eigenvectors of T)
-    dormtr_(&side_, &uplo_, &trans_, &n,
-            &m, a, &n,
-            tau_.data(), evects.GetData(), &n, work_.data(),
-            &lwork_, &info_);
-
-    // Should we keep all evals?
-    evals.resize(n);
+    std::copy_n(a, n * m, evects.GetData());
 
     //return std::make_tuple(std::move(evals), DenseMatrix(n, m, std::move(evect_data)));
 }
@@ -141,31 +95,10 @@ void EigenSolver::AllocateWorkspace(int size)
     int lwork = -1;
     double wkopt;
 
-    // find max workspace between dsytrd_, dstein_ and dormtr_
-    dsytrd_(&uplo_, &size, nullptr, &size,
-            d_.data(), e_.data(), tau_.data(), &wkopt,
-            &lwork, &info_ );
-
-    // 5n is for dstein_
-    lwork_ = std::max(5 * size, (int)wkopt);
-
-    dormtr_(&side_, &uplo_, &trans_, &size,
-            &size, nullptr, &size,
-            tau_.data(), nullptr, &size, &wkopt,
-            &lwork, &info_ );
-
-    lwork_ = std::max(lwork_, (int)wkopt);
+    dsyev_(&jobz_, &uplo_, &size, nullptr, &size, nullptr, &wkopt, &lwork, &info_);
 
+    lwork_ = static_cast<int>(wkopt);
     work_.resize(lwork_);
-    iwork_.resize(size);
-
-    d_.resize(size);
-    e_.resize(size);
-    tau_.resize(size);
-
-    iblock_.resize(size, 1);
-    isplit_.resize(size, 0);
-    iwork_.resize(size);
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From eb54f5760d4b70fcc7f5a03b2351f24bc8be7a42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 28/51] fix: ArgParser keeps the whole string value, not just
 its first word

---
 include/argparser.hpp |  3 +++
 src/argparser.cpp     | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 5128289..583f2ac 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -70,6 +70,9 @@ class ArgParser
 template <>
 void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& help) const;
 
+template <>
+void ArgParser::Parse(std::string& arg, const std::string& flag, const std::string& help) const;
+
 template <typename T>
 void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help) const
 {
diff --git a/src/argparser.cpp b/src/argparser.cpp
index 0665c54..2cb29f6 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -142,6 +142,29 @@ void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& hel
     }
 }
 
+template <>
+void ArgParser::Parse(std::string& arg, const std::string& flag, const std::string& help) const
+{
+    help_[flag] = help;
+
+    const auto value = values_.find(flag);
+
+    // The whole value, not just its first word
+    if (value != values_.end() && !value->second.empty())
+    {
+        arg = value->second;
+    }
+
+    if (seen_values_.find(flag) == seen_values_.end())
+    {
+        seen_values_[flag] = arg;
+    }
+    else
+    {
+        errors_.push_back(flag + " requested to be parsed multiple times!");
+    }
+}
+
 bool ArgParser::IsGood() const
 {
     return (errors_.size() == 0 && !need_help_);
-- 
2.43.0


From a81088da986bf1b35734a2364320a17fe72affa0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 29/51] fix: Timer measures with a monotonic clock, so that
 setting the system time cannot shorten an interval

---
 include/timer.hpp | 2 +-
 src/timer.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timer.hpp b/include/timer.hpp
index dd9d42e..b0d3a9c 100644
--- a/include/timer.hpp
+++ b/include/timer.hpp
@@ -23,7 +23,7 @@ class Timer
         double operator[](int index) const;
 
     private:
-        std::vector<std::chrono::time_point<std::chrono::high_resolution_clock>> times_;
+        std::vector<std::chrono::time_point<std::chrono::steady_clock>> times_;
 
 };
 
diff --git a/src/timer.cpp b/src/timer.cpp
index 317b6b7..1b0c6a0 100644
--- a/src/timer.cpp
+++ b/src/timer.cpp
@@ -13,7 +13,7 @@ Timer::Timer(Start start)
 
 void Timer::Click()
 {
-    times_.push_back(std::chrono::high_resolution_clock::now());
+    times_.push_back(std::chrono::steady_clock::now());
 }
 
 double Timer::TotalTime() const
-- 
2.43.0


From 5d30610db4a5f1ee52cf4c7982e299d5c407ef08 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 30/51] fix: block objects refuse negative block indices

---
 include/blockmatrix.hpp | 8 ++++----
 include/blockvector.hpp | 4 ++--
 src/blockoperator.cpp   | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 459cd9f..6d491aa 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -184,8 +184,8 @@ const std::vector<int>& BlockMatrix<T>::GetColOffsets() const
 template <typename T>
 const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     return A_[i][j];
 }
@@ -193,8 +193,8 @@ const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 template <typename T>
 void BlockMatrix<T>::SetBlock(int i, int j, SparseMatrix<T> mat)
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     assert(mat.Rows() == (row_offsets_[i + 1] - row_offsets_[i]));
     assert(mat.Cols() == (col_offsets_[j + 1] - col_offsets_[j]));
diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index d26d75b..73c9f40 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -131,7 +131,7 @@ const std::vector<int>& BlockVector<T>::GetOffsets() const
 template <typename T>
 VectorView<T> BlockVector<T>::GetBlock(int block)
 {
-    assert(block < static_cast<int>(offsets_.size()) - 1);
+    assert(block >= 0 && block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = Vector<T>::begin() + offsets_[block];
     int size = offsets_[block + 1] - offsets_[block];
@@ -142,7 +142,7 @@ VectorView<T> BlockVector<T>::GetBlock(int block)
 template <typename T>
 const VectorView<T> BlockVector<T>::GetBlock(int block) const
 {
-    assert(block < static_cast<int>(offsets_.size()) - 1);
+    assert(block >= 0 && block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = const_cast<T*>(Vector<T>::begin() + offsets_[block]);
     int size = offsets_[block + 1] - offsets_[block];
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index a7cc0a4..066fd0e 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -66,16 +66,16 @@ const std::vector<int>& BlockOperator::GetColOffsets() const
 
 const Operator* BlockOperator::GetBlock(int i, int j) const
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     return A_[i][j];
 }
 
 void BlockOperator::SetBlock(int i, int j, const Operator& op)
 {
-    assert(i < static_cast<int>(row_offsets_.size()) - 1);
-    assert(j < static_cast<int>(col_offsets_.size()) - 1);
+    assert(i >= 0 && i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0 && j < static_cast<int>(col_offsets_.size()) - 1);
 
     assert(op.Rows() == (row_offsets_[i + 1] - row_offsets_[i]));
     assert(op.Cols() == (col_offsets_[j + 1] - col_offsets_[j]));
-- 
2.43.0


From 20ff8219e465fd06f43e45efe0a915394920f139 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 31/51] fix: SparseMatrix::GetSubMatrix refuses rows and
 columns outside the matrix

---
 include/sparsematrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..86d131a 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -860,6 +860,8 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
 
     for (int i = 0; i < out_cols; ++i)
     {
+        assert(cols[i] >= 0 && cols[i] < cols_);
+
         marker[cols[i]] = i;
     }
 
@@ -867,7 +869,7 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
     {
         const int row = rows[i];
 
-        assert(row < rows_);
+        assert(row >= 0 && row < rows_);
 
         for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
         {
-- 
2.43.0


From aa22db36efda71436b921c6c43994174ce8f152b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 32/51] fix: SparseMatrix::AddDiag refuses a diagonal of the
 wrong size

---
 include/sparsematrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 86d131a..78bc30f 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -804,6 +804,7 @@ template <typename T>
 void SparseMatrix<T>::AddDiag(const std::vector<T>& diag)
 {
     assert(rows_ == cols_);
+    assert(static_cast<int>(diag.size()) == rows_);
 
     for (int i = 0; i < rows_; ++i)
     {
-- 
2.43.0


From a81b2e1811f45b380fec53cdb06c330a4cb83699 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 33/51] fix: SparseMatrix refuses row pointers that do not
 describe its entries

---
 include/sparsematrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 78bc30f..7f2193a 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -474,6 +474,8 @@ SparseMatrix<T>::SparseMatrix(std::vector<int> indptr,
     assert(indptr_.size() == rows_ + 1u);
     assert(indices_.size() == data_.size());
     assert(indptr_[0] == 0);
+    assert(indptr_.back() == static_cast<int>(indices_.size()));
+    assert(std::is_sorted(std::begin(indptr_), std::end(indptr_)));
 
     if (indices_.size() > 0)
     {
-- 
2.43.0


From a4a8b3180368c0525020716d0f9c735dd58cca77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 34/51] fix: DenseMatrix scaling refuses values of the wrong
 size

---
 include/densematrix.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/densematrix.hpp b/include/densematrix.hpp
index b1d36e4..3ee3e26 100644
--- a/include/densematrix.hpp
+++ b/include/densematrix.hpp
@@ -791,6 +791,8 @@ void DenseMatrix::SetRow(int row, const VectorView<T>& vect)
 template <typename T>
 void DenseMatrix::ScaleRows(const T& values)
 {
+    assert(static_cast<int>(values.size()) == rows_);
+
     for (int j = 0; j < cols_; ++j)
     {
         for (int i = 0; i < rows_; ++i)
@@ -803,6 +805,8 @@ void DenseMatrix::ScaleRows(const T& values)
 template <typename T>
 void DenseMatrix::ScaleCols(const T& values)
 {
+    assert(static_cast<int>(values.size()) == cols_);
+
     for (int j = 0; j < cols_; ++j)
     {
         const double scale = values[j];
@@ -817,6 +821,8 @@ void DenseMatrix::ScaleCols(const T& values)
 template <typename T>
 void DenseMatrix::InverseScaleRows(const T& values)
 {
+    assert(static_cast<int>(values.size()) == rows_);
+
     for (int j = 0; j < cols_; ++j)
     {
         for (int i = 0; i < rows_; ++i)
@@ -831,6 +837,8 @@ void DenseMatrix::InverseScaleRows(const T& values)
 template <typename T>
 void DenseMatrix::InverseScaleCols(const T& values)
 {
+    assert(static_cast<int>(values.size()) == cols_);
+
     for (int j = 0; j < cols_; ++j)
     {
         const double scale = values[j];
-- 
2.43.0


From 37fec4a70f5185f1551745e939eeb44e31a5cba1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 35/51] fix: EigenSolver refuses a matrix that is not square

---
 src/eigensolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 7230887..6da1fa4 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -41,6 +41,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     auto& evals = eigen_pair.first;
     auto& evects = eigen_pair.second;
 
+    assert(mat.Rows() == mat.Cols());
+
     int n = mat.Rows();
 
     if (n < 1)
-- 
2.43.0


From 30d61aa17cadb5fb662b25d7dac31ae2f8040e6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 36/51] fix: CooMatrix permutations refuse targets outside the
 matrix

---
 include/coomatrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index ab83b2d..05412a9 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -582,6 +582,7 @@ void CooMatrix<T>::PermuteRows(const std::vector<int>& perm)
     for (auto& entry : entries_)
     {
         std::get<0>(entry) = perm[std::get<0>(entry)];
+        assert(std::get<0>(entry) >= 0 && std::get<0>(entry) < rows);
     }
 }
 
@@ -597,6 +598,7 @@ void CooMatrix<T>::PermuteCols(const std::vector<int>& perm)
     for (auto& entry : entries_)
     {
         std::get<1>(entry) = perm[std::get<1>(entry)];
+        assert(std::get<1>(entry) >= 0 && std::get<1>(entry) < cols);
     }
 }
 
@@ -614,6 +616,8 @@ void CooMatrix<T>::PermuteRowsCols(const std::vector<int>& row_perm, const std::
     {
         std::get<0>(entry) = row_perm[std::get<0>(entry)];
         std::get<1>(entry) = col_perm[std::get<1>(entry)];
+        assert(std::get<0>(entry) >= 0 && std::get<0>(entry) < rows);
+        assert(std::get<1>(entry) >= 0 && std::get<1>(entry) < cols);
     }
 }
 
-- 
2.43.0


From 4a9fe734ee1792c9170e0b2ce4772c4f1ed10bc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 37/51] fix: PCGSolver::SetPreconditioner refuses a
 preconditioner of another size

---
 include/solvers.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/solvers.hpp b/include/solvers.hpp
index 63ee2d1..6cc191f 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -136,7 +136,14 @@ class PCGSolver : public Solver
         virtual ~PCGSolver() noexcept = default;
 
         /*! @brief Set Preconditioner */
-        void SetPreconditioner (const Operator& M) { M_ = &M; }
+        void SetPreconditioner (const Operator& M)
+        {
+            assert(A_);
+            assert(M.Rows() == A_->Rows());
+            assert(M.Cols() == A_->Rows());
+
+            M_ = &M;
+        }
 
         /*! @brief Solve
             @param[in] input right hand side to solve for
-- 
2.43.0


From 80d1267f7e9420d80d7f983552d36d9710d137e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 38/51] fix: ArgParser::ShowOptions leaves the stream's format
 as it was

---
 src/argparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/argparser.cpp b/src/argparser.cpp
index 2cb29f6..46a0974 100644
--- a/src/argparser.cpp
+++ b/src/argparser.cpp
@@ -107,6 +107,8 @@ void ArgParser::ShowOptions(std::ostream& out) const
     flag_width += 2;
     val_width += 2;
 
+    const auto flags = out.flags();
+
     for (auto& option : seen_values_)
     {
         out << "  " << std::left
@@ -116,6 +118,7 @@ void ArgParser::ShowOptions(std::ostream& out) const
             << "\n";
     }
 
+    out.flags(flags);
     out.flush();
 }
 
-- 
2.43.0


From 4718f66e0c8f6f06366b7d57f09b453d438c9498 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 39/51] fix: ParAdd scales the first entry of every
 off-diagonal column

---
 modules/parlinalgcpp/src/parutilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index cdebca8..4c8a54a 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -276,7 +276,7 @@ ParMatrix ParAdd(double alpha, const ParMatrix& A, double beta, const ParMatrix&
                 }
                 else
                 {
-                    coo_offd.Add(i, col_map.size(), data[j]);
+                    coo_offd.Add(i, col_map.size(), val * data[j]);
                     marker[global_col] = col_map.size();
 
                     col_map.emplace_back(global_col);
-- 
2.43.0


From cbcae13ca3e27164ffd913434200f64878d7f7d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 40/51] fix: ParSplit keeps the lower part of the diagonal
 blocks of a nonsymmetric matrix

---
 modules/parlinalgcpp/src/parutilities.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 4c8a54a..4b74f07 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -77,10 +77,7 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
                 int local_col = local_index[perm[col]];
                 assert(local_col >= 0 && local_col < local_vertices);
 
-                if (local_col >= local_vertex)
-                {
-                    local_diag.AddSym(local_vertex, local_col, val);
-                }
+                local_diag.Add(local_vertex, local_col, val);
             }
             else
             {
-- 
2.43.0


From 8171cc0ca932128174ae7cf4d7b45ea66ca18bbb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:59 +0000
Subject: [PATCH 41/51] fix: ParVector constructor prints nothing

---
 modules/parlinalgcpp/src/parvector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 3466913..8772c9e 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -18,7 +18,6 @@ ParVector::ParVector(MPI_Comm comm, const std::vector<HYPRE_Int>& part)
 ParVector::ParVector(MPI_Comm comm, double val, const std::vector<HYPRE_Int>& part)
     : Vector(part[1] - part[0], val), comm_(comm), pvect_(nullptr), partition_(part)
 {
-    printf("Parvector: %d %d - > %d\n", part[1], part[0], size());
     Init();
 }
 
-- 
2.43.0


From 4a8c47470eb411e0936ef75dc17ab010651b02ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 42/51] fix: ParCG applies the preconditioner it is given

---
 modules/parlinalgcpp/src/parsolvers.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 7c6a2da..d1aa494 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -249,14 +249,27 @@ ParCG::ParCG(ParMatrix A, size_t max_iter,
     HypreSetup();
 }
 
+// Preconditioner as hypre calls it, applies the ParSolver that is passed as its data
+static HYPRE_Int PrecondSolve(HYPRE_Solver solver, HYPRE_ParCSRMatrix, HYPRE_ParVector b, HYPRE_ParVector x)
+{
+    const ParSolver& M = *reinterpret_cast<const ParSolver*>(solver);
+
+    linalgcpp::VectorView<double> b_view(hypre_VectorData(hypre_ParVectorLocalVector(b)), M.Rows());
+    linalgcpp::VectorView<double> x_view(hypre_VectorData(hypre_ParVectorLocalVector(x)), M.Rows());
+
+    M.Mult(b_view, x_view);
+
+    return 0;
+}
+
 ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
     : ParCG(std::move(A), max_iter, tol, verbose)
 {
     auto& solver_ = ParSolver::GetSolver();
 
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSetupFn(), M.GetSolveFn(), M.GetSolver());
+    HYPRE_ParCSRPCGSetPrecond(solver_, &PrecondSolve, &no_setup,
+                              reinterpret_cast<HYPRE_Solver>(const_cast<ParSolver*>(&M)));
 }
 
 
-- 
2.43.0


From e0dbed96793f45b50266b954cdf0b9027c105474 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 43/51] fix: ParMult and ParL2Norm of distributed vectors add
 every rank up once

---
 modules/parlinalgcpp/src/parvector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 8772c9e..05e0e85 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -212,7 +212,7 @@ double Mult(const ParVector& lhs, const ParVector& rhs)
 
 double ParL2Norm(MPI_Comm comm, const linalgcpp::VectorView<double>& vect)
 {
-    double local_sum = vect.Mult(vect);
+    double local_sum = vect.linalgcpp::VectorView<double>::Mult(vect);
 
     double global_sum;
     MPI_Allreduce(&local_sum, &global_sum, 1, MPI_DOUBLE, MPI_SUM, comm);
@@ -227,7 +227,7 @@ double L2Norm(const ParVector& vect)
 
 double ParMult(MPI_Comm comm, const linalgcpp::VectorView<double>& lhs, const linalgcpp::VectorView<double>& rhs)
 {
-    double local_sum = lhs.Mult(rhs);
+    double local_sum = lhs.linalgcpp::VectorView<double>::Mult(rhs);
 
     double global_sum;
     MPI_Allreduce(&local_sum, &global_sum, 1, MPI_DOUBLE, MPI_SUM, comm);
-- 
2.43.0


From b0a561ce8bdd3cd38054803951755207d544105c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 44/51] fix: a copy of a ParCG has the tolerance, iteration
 limit and preconditioner of the original

---
 modules/parlinalgcpp/include/parsolvers.hpp |  7 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 57 +++++++++++++++------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 104de7b..d88585d 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -201,6 +201,13 @@ class ParCG: public ParSolver
         ~ParCG() = default;
 
         void EnableDiagScaling();
+
+    private:
+        void SetParams();
+        void SetPrecond();
+
+        const ParSolver* M_ = nullptr;
+        bool diag_scaling_ = false;
 };
 
 class ParDiagScale: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index d1aa494..db7ffc8 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -240,13 +240,7 @@ ParCG::ParCG(ParMatrix A, size_t max_iter,
                 &HYPRE_ParCSRPCGCreate, &HYPRE_ParCSRPCGDestroy,
                 &HYPRE_ParCSRPCGSetup, &HYPRE_ParCSRPCGSolve)
 {
-    auto& solver_ = ParSolver::GetSolver();
-
-    HYPRE_PCGSetTol(solver_, tol_);
-    HYPRE_PCGSetMaxIter(solver_, max_iter_);
-    HYPRE_ParCSRPCGSetPrintLevel(solver_, verbose_);
-
-    HypreSetup();
+    SetParams();
 }
 
 // Preconditioner as hypre calls it, applies the ParSolver that is passed as its data
@@ -265,18 +259,48 @@ static HYPRE_Int PrecondSolve(HYPRE_Solver solver, HYPRE_ParCSRMatrix, HYPRE_Par
 ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
     : ParCG(std::move(A), max_iter, tol, verbose)
+{
+    M_ = &M;
+    SetPrecond();
+}
+
+void ParCG::SetParams()
 {
     auto& solver_ = ParSolver::GetSolver();
 
-    HYPRE_ParCSRPCGSetPrecond(solver_, &PrecondSolve, &no_setup,
-                              reinterpret_cast<HYPRE_Solver>(const_cast<ParSolver*>(&M)));
+    HYPRE_PCGSetTol(solver_, tol_);
+    HYPRE_PCGSetMaxIter(solver_, max_iter_);
+    HYPRE_ParCSRPCGSetPrintLevel(solver_, verbose_);
+
+    HypreSetup();
 }
 
+void ParCG::SetPrecond()
+{
+    auto& solver_ = ParSolver::GetSolver();
+
+    if (diag_scaling_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_,
+                                  (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
+                                  (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
+                                  nullptr);
+    }
+    else if (M_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_, &PrecondSolve, &no_setup,
+                                  reinterpret_cast<HYPRE_Solver>(const_cast<ParSolver*>(M_)));
+    }
+}
 
 ParCG::ParCG(const ParCG& other) noexcept
-    : ParSolver(other)
+    : ParSolver(other), M_(other.M_), diag_scaling_(other.diag_scaling_)
 {
-    HypreSetup();
+    if (GetSolver())
+    {
+        SetParams();
+        SetPrecond();
+    }
 }
 
 ParCG::ParCG(ParCG&& other) noexcept
@@ -294,16 +318,15 @@ ParCG& ParCG::operator=(ParCG other) noexcept
 void swap(ParCG& lhs, ParCG& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.M_, rhs.M_);
+    std::swap(lhs.diag_scaling_, rhs.diag_scaling_);
 }
 
 void ParCG::EnableDiagScaling()
 {
-    auto& solver_ = ParSolver::GetSolver();
-
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScale,
-                              (HYPRE_PtrToParSolverFcn) HYPRE_ParCSRDiagScaleSetup,
-                              nullptr);
+    diag_scaling_ = true;
+    SetPrecond();
 }
 
 ParDiagScale::ParDiagScale(ParMatrix A, size_t max_iter,
-- 
2.43.0


From cf6fd6d87541843567fa29d5af3c4a3736379a61 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 45/51] fix: a copy of a BoomerAMG is set up like the original

---
 modules/parlinalgcpp/include/parsolvers.hpp | 3 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index d88585d..496e822 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -155,6 +155,9 @@ class BoomerAMG: public ParSolver
         friend void swap(BoomerAMG& lhs, BoomerAMG& rhs) noexcept;
 
         ~BoomerAMG() = default;
+
+    private:
+        void SetParams();
 };
 
 class ParaSails: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index db7ffc8..3778189 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -113,6 +113,11 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_BoomerAMGCreate, &HYPRE_BoomerAMGDestroy,
                 &HYPRE_BoomerAMGSetup, &HYPRE_BoomerAMGSolve)
+{
+    SetParams();
+}
+
+void BoomerAMG::SetParams()
 {
     // Parameters mostly copied directly from mfem
     int coarsen_type = 10;   // 10 = HMIS, 8 = PMIS, 6 = Falgout, 0 = CLJP
@@ -145,6 +150,10 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
 BoomerAMG::BoomerAMG(const BoomerAMG& other) noexcept
     : ParSolver(other)
 {
+    if (GetSolver())
+    {
+        SetParams();
+    }
 }
 
 BoomerAMG::BoomerAMG(BoomerAMG&& other) noexcept
-- 
2.43.0


From 15bbdee09e2b8b373eb7e40a8497613a11e9756d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 46/51] fix: a copy of a ParaSails has a solver of its own, set
 up like the original

---
 modules/parlinalgcpp/include/parsolvers.hpp | 11 ++++++
 modules/parlinalgcpp/src/parsolvers.cpp     | 42 +++++++++++++++++----
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 496e822..5a20fc8 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -184,6 +184,17 @@ class ParaSails: public ParSolver
         void SetLoadBal(int load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
+
+    private:
+        void SetParams();
+
+        int reuse_ = 0;
+        int sym_ = 0;
+        int load_bal_ = 0;
+        int logging_ = 0;
+        double threshold_ = 0.1;
+        double filter_ = 0.1;
+        int max_levels_ = 1;
 };
 
 class ParCG: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 3778189..ff53dbd 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -180,25 +180,38 @@ ParaSails::ParaSails(ParMatrix A, bool verbose,
                      double filter, int max_levels)
     : ParSolver(std::move(A), 0, 0, verbose,
                 &no_create, &HYPRE_ParaSailsDestroy,
-                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve)
+                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve),
+      reuse_(reuse), sym_(sym), load_bal_(load_bal), logging_(verbose),
+      threshold_(threshold), filter_(filter), max_levels_(max_levels)
+{
+    SetParams();
+}
+
+void ParaSails::SetParams()
 {
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParaSailsCreate(A_.GetComm(), &solver_);
-    HYPRE_ParaSailsSetParams(solver_, threshold, max_levels);
+    HYPRE_ParaSailsSetParams(solver_, threshold_, max_levels_);
 
-    SetFilter(filter);
-    SetSym(sym);
-    SetLoadBal(load_bal);
-    SetReuse(reuse);
-    SetLogging(verbose);
+    SetFilter(filter_);
+    SetSym(sym_);
+    SetLoadBal(load_bal_);
+    SetReuse(reuse_);
+    SetLogging(logging_);
 
     HypreSetup();
 }
 
 ParaSails::ParaSails(const ParaSails& other) noexcept
-    : ParSolver(other)
+    : ParSolver(other),
+      reuse_(other.reuse_), sym_(other.sym_), load_bal_(other.load_bal_), logging_(other.logging_),
+      threshold_(other.threshold_), filter_(other.filter_), max_levels_(other.max_levels_)
 {
+    if (other.GetSolver())
+    {
+        SetParams();
+    }
 }
 
 ParaSails::ParaSails(ParaSails&& other) noexcept
@@ -216,30 +229,43 @@ ParaSails& ParaSails::operator=(ParaSails other) noexcept
 void swap(ParaSails& lhs, ParaSails& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.reuse_, rhs.reuse_);
+    std::swap(lhs.sym_, rhs.sym_);
+    std::swap(lhs.load_bal_, rhs.load_bal_);
+    std::swap(lhs.logging_, rhs.logging_);
+    std::swap(lhs.threshold_, rhs.threshold_);
+    std::swap(lhs.filter_, rhs.filter_);
+    std::swap(lhs.max_levels_, rhs.max_levels_);
 }
 
 void ParaSails::SetFilter(double filter)
 {
+    filter_ = filter;
     HYPRE_ParaSailsSetFilter(GetSolver(), filter);
 }
 
 void ParaSails::SetSym(int sym)
 {
+    sym_ = sym;
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
 void ParaSails::SetLoadBal(int load_bal)
 {
+    load_bal_ = load_bal;
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
 
 void ParaSails::SetReuse(int reuse)
 {
+    reuse_ = reuse;
     HYPRE_ParaSailsSetReuse(GetSolver(), reuse);
 }
 
 void ParaSails::SetLogging(int logging)
 {
+    logging_ = logging;
     HYPRE_ParaSailsSetLogging(GetSolver(), logging);
 }
 
-- 
2.43.0


From f9eceae1e5dccff25ae245b1bd5ec31b3ba0961d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 47/51] fix: default constructed ParVector has a size and can
 be copied

---
 modules/parlinalgcpp/src/parvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 05e0e85..937f36e 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -6,7 +6,7 @@ namespace linalgcpp
 {
 
 ParVector::ParVector()
-    : Vector(0), comm_(0), pvect_(nullptr)
+    : Vector(0), comm_(0), pvect_(nullptr), global_size_(0)
 {
 }
 
@@ -54,7 +54,10 @@ ParVector::ParVector(const ParVector& other)
     : linalgcpp::Vector<double>(other), comm_(other.comm_), pvect_(nullptr), partition_(other.partition_),
       global_size_(other.global_size_)
 {
-    HypreCreate();
+    if (other.pvect_)
+    {
+        HypreCreate();
+    }
 }
 
 ParVector::ParVector(ParVector&& other)
-- 
2.43.0


From dbc0f0f7f3e8f125bd26fe7af28692d0e5beff69 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 48/51] fix: ParSolver move constructor leaves nothing
 uninitialised behind

---
 modules/parlinalgcpp/src/parsolvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index ff53dbd..638f957 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -51,6 +51,7 @@ ParSolver::ParSolver(const ParSolver& other)
 }
 
 ParSolver::ParSolver(ParSolver&& other)
+    : ParSolver()
 {
     swap(*this, other);
 }
-- 
2.43.0


From ff648f30e1afe623530674f00e66e8e02ac25044 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 49/51] fix: default constructed ParSmoother can be moved and
 copied

---
 modules/parlinalgcpp/src/parsmoother.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 3919721..5ed170d 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -5,7 +5,8 @@
 namespace linalgcpp
 {
 ParSmoother::ParSmoother()
-    : buffer_shell_(nullptr)
+    : type_(SmoothType::Jacobi), relax_times_(0), relax_weight_(0.0), omega_(0.0),
+      buffer_shell_(nullptr)
 {
 }
 
@@ -26,10 +27,14 @@ ParSmoother::ParSmoother(const ParSmoother& other)
       relax_weight_(other.relax_weight_), omega_(other.omega_),
       buffer_(other.buffer_), buffer_shell_(nullptr), l1_norms_(other.l1_norms_)
 {
-    InitVector(buffer_shell_, row_starts_);
+    if (other.buffer_shell_)
+    {
+        InitVector(buffer_shell_, row_starts_);
+    }
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
+    : ParSmoother()
 {
     swap(*this, other);
 }
-- 
2.43.0


From ec540de142cd2b7ce951d7a6fbca343b68599034 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 50/51] fix: ParMatrix::MaxNorm is the maximum of the absolute
 values of all entries

---
 modules/parlinalgcpp/src/parmatrix.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index 9ec0582..9db05e9 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -353,9 +353,17 @@ ParCommPkg ParMatrix::MakeCommPkg() const
 
 double ParMatrix::MaxNorm() const
 {
-    double local_max = std::max(diag_.MaxNorm(), offd_.MaxNorm());
+    double local_max = 0.0;
     double global_max = 0.0;
 
+    for (const auto* mat : {&diag_, &offd_})
+    {
+        for (double val : mat->GetData())
+        {
+            local_max = std::max(local_max, std::fabs(val));
+        }
+    }
+
     MPI_Allreduce(&local_max, &global_max, 1, MPI_DOUBLE, MPI_MAX,
                   comm_);
 
-- 
2.43.0


From cd9f0eb49934847146aa37348042c52a2b4d1124 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 51/51] fix: ParVector::Normalize normalizes the distributed
 vector, not each piece

---
 modules/parlinalgcpp/include/parvector.hpp | 3 +++
 modules/parlinalgcpp/src/parvector.cpp     | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/modules/parlinalgcpp/include/parvector.hpp b/modules/parlinalgcpp/include/parvector.hpp
index 6690a16..ebe1531 100644
--- a/modules/parlinalgcpp/include/parvector.hpp
+++ b/modules/parlinalgcpp/include/parvector.hpp
@@ -76,6 +76,9 @@ class ParVector: public linalgcpp::Vector<double>
         /*! @brief Compute global l2 norm */
         double L2Norm() const override;
 
+        /*! @brief Normalize such that the global l2 norm is 1.0 */
+        void Normalize() override;
+
         /*! @brief Compute local sum of vector entries */
         double LocalSum() const;
 
diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 937f36e..91ac2ee 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -208,6 +208,11 @@ double ParVector::L2Norm() const
     return std::sqrt(Mult(*this));
 }
 
+void ParVector::Normalize()
+{
+    *this /= L2Norm();
+}
+
 double Mult(const ParVector& lhs, const ParVector& rhs)
 {
     return lhs.Mult(rhs);
-- 
2.43.0

