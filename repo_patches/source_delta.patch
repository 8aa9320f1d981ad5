From 6d1c2f8d1998af16f89639d87b1f784bcc005c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:04 +0000
Subject: [PATCH 01/83] fix: sums of squares and Frobenius norms of complex
 matrices use |z|^2, not z^2

---
 src/C-interface/csr/bml_norm_csr_typed.c           |  6 +++---
 src/C-interface/dense/bml_norm_dense_typed.c       |  8 ++++----
 src/C-interface/ellblock/bml_norm_ellblock_typed.c |  6 +++---
 src/C-interface/ellpack/bml_add_ellpack_typed.c    |  2 +-
 src/C-interface/ellpack/bml_norm_ellpack_typed.c   | 10 +++++-----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..cd7dc64 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * COMPLEX_CONJUGATE(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..2276735 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 #endif
 
@@ -135,7 +135,7 @@ double TYPED_FUNC(
   reduction(+:sum)
     for (int i = 0; i < core_size * N; i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 
 /*
@@ -297,7 +297,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * COMPLEX_CONJUGATE(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -371,7 +371,7 @@ double TYPED_FUNC(
          i++)
     {
         temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        fnorm += temp * COMPLEX_CONJUGATE(temp);
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..da6796a 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * COMPLEX_CONJUGATE(xval[index]);
                 }
         }
     }
@@ -352,7 +352,7 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += temp * COMPLEX_CONJUGATE(temp);
                 }
         }
 
@@ -379,7 +379,7 @@ double TYPED_FUNC(
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += temp * COMPLEX_CONJUGATE(temp);
                     }
             }
         }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..46d5067 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -382,7 +382,7 @@ double TYPED_FUNC(
         {
             int jind = jx[jp];
             REAL_T xTmp = x[jind];
-            trnorm += y[jind] * y[jind];
+            trnorm += y[jind] * COMPLEX_CONJUGATE(y[jind]);
             if (is_above_threshold(xTmp, threshold))
             {
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..5fe62a8 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * COMPLEX_CONJUGATE(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -419,7 +419,7 @@ double TYPED_FUNC(
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            fnorm += temp * COMPLEX_CONJUGATE(temp);
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
@@ -438,7 +438,7 @@ double TYPED_FUNC(
             if (rvalue == 0.0)
             {
                 temp = B_value[ROWMAJOR(i, j, N, M)];
-                fnorm += temp * temp;
+                fnorm += temp * COMPLEX_CONJUGATE(temp);
             }
         }
     }
-- 
2.43.0


From 1bf69e9fbfbe5e01903c314c835635ea0c5d5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:18 +0000
Subject: [PATCH 02/83] fix: dense bml_sum_squares_submatrix sums the leading
 block only, as the other formats do

---
 src/C-interface/dense/bml_norm_dense_typed.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 2276735..0868f15 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -133,22 +133,15 @@ double TYPED_FUNC(
 #pragma omp parallel for                        \
   shared(N, A_matrix)                           \
   reduction(+:sum)
-    for (int i = 0; i < core_size * N; i++)
-    {
-        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
-    }
-
-/*
     for (int i = 0; i < core_size; i++)
     {
-        //for (int j = 0; j < core_size; j++)
-        for (int j = 0; j < N; j++)
+        for (int j = 0; j < core_size; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
-            sum += value * value;
+            sum += value * COMPLEX_CONJUGATE(value);
         }
     }
-*/
+
 #endif
 
     return (double) REAL_PART(sum);
-- 
2.43.0


From f08d8187b1c1dcbe46709e317a9b109b32ae5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:18 +0000
Subject: [PATCH 03/83] fix: dense bml_fnorm2 shared its loop temporary between
 threads

---
 src/C-interface/dense/bml_norm_dense_typed.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 0868f15..53cdf7f 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -346,7 +346,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
 
     int myRank = bml_getMyRank();
 
@@ -355,7 +354,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -363,7 +361,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
+        REAL_T temp = A_matrix[i] - B_matrix[i];
         fnorm += temp * COMPLEX_CONJUGATE(temp);
     }
 
-- 
2.43.0


From fbaa3cf8f4a30920a421fd5523e724e53413c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 04/83] fix: dense bml_add_norm returns the squared norm of A -
 B, as ellpack does

---
 src/C-interface/dense/bml_add_dense_typed.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..28c5c21 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -160,6 +160,7 @@ double TYPED_FUNC(
     double beta)
 {
     double trnorm = 0.0;
+    REAL_T *A_matrix = (REAL_T *) A->matrix;
     REAL_T *B_matrix = (REAL_T *) B->matrix;
     int myRank = bml_getMyRank();
     int N = A->N;
@@ -168,14 +169,16 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
 #pragma omp parallel for                                \
-  shared(B_matrix, A_localRowMin, A_localRowMax)        \
+  shared(A_matrix, B_matrix)                            \
+  shared(A_localRowMin, A_localRowMax)                  \
   shared(N, myRank)                                     \
   reduction(+:trnorm)
     //for (int i = 0; i < N * N; i++)
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        trnorm += B_matrix[i] * B_matrix[i];
+        REAL_T diff = A_matrix[i] - B_matrix[i];
+        trnorm += diff * COMPLEX_CONJUGATE(diff);
     }
 
     TYPED_FUNC(bml_add_dense) (A, B, alpha, beta);
-- 
2.43.0


From 08be1378c41c4d179e77f0781d27e63aa847a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 05/83] fix: ellpack bml_fnorm2 used uninitialised and stale
 values for positions only one matrix stores

---
 .../ellpack/bml_norm_ellpack_typed.c          | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index 5fe62a8..2701bad 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -373,9 +373,9 @@ double TYPED_FUNC(
     bml_matrix_ellpack_t * B)
 {
     int N = A->N;
-    int M = A->M;
+    int A_M = A->M;
+    int B_M = B->M;
     double fnorm = 0.0;
-    REAL_T rvalue;
 
     int *A_nnz = (int *) A->nnz;
     int *A_index = (int *) A->index;
@@ -386,19 +386,17 @@ double TYPED_FUNC(
     int *B_index = (int *) B->index;
     REAL_T *B_value = (REAL_T *) B->value;
 
-    REAL_T temp;
-
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
     int rowMax = A_localRowMax[myRank];
 
 #ifdef USE_OMP_OFFLOAD
 //#pragma omp target map(tofrom:fnorm)
-#pragma omp target update from(A_nnz[:N], A_index[:N*M], A_value[:N*M])
+#pragma omp target update from(A_nnz[:N], A_index[:N*A_M], A_value[:N*A_M])
 #endif
 #pragma omp parallel for                        \
-  private(rvalue, temp)                         \
-  shared(N, M, A_nnz, A_index, A_value)         \
+  shared(N, A_M, B_M)                           \
+  shared(A_nnz, A_index, A_value)               \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   shared(B_nnz, B_index, B_value)               \
   reduction(+:fnorm)
@@ -407,37 +405,37 @@ double TYPED_FUNC(
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            REAL_T temp = A_value[ROWMAJOR(i, j, N, A_M)];
             for (int k = 0; k < B_nnz[i]; k++)
             {
-                if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                if (A_index[ROWMAJOR(i, j, N, A_M)] ==
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    temp -= B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
             fnorm += temp * COMPLEX_CONJUGATE(temp);
         }
 
+        // entries of B at positions A does not store
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            int found = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
-                if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                if (A_index[ROWMAJOR(i, k, N, A_M)] ==
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    found = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!found)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
+                REAL_T temp = B_value[ROWMAJOR(i, j, N, B_M)];
                 fnorm += temp * COMPLEX_CONJUGATE(temp);
             }
         }
-- 
2.43.0


From b2498598181d085dd4daed4a01b67e2e388d819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:09 +0000
Subject: [PATCH 06/83] fix: ellblock bml_fnorm2 used stale block pointers and
 A's block index for blocks only B stores

---
 src/C-interface/ellblock/bml_norm_ellblock_typed.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index da6796a..c22f389 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -334,6 +334,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            rvalue = zero_block;
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
@@ -342,7 +343,6 @@ double TYPED_FUNC(
                     rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = zero_block;
             }
 
             REAL_T *A_value = A_ptr_value[ind];
@@ -358,6 +358,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            rvalue = NULL;
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
@@ -366,13 +367,12 @@ double TYPED_FUNC(
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = NULL;
             }
 
             if (rvalue == NULL)
             {
                 int ind = ROWMAJOR(ib, jp, NB, MB);
-                int jb = A_indexb[ind];
+                int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
-- 
2.43.0


From f96a1d44c0c9f69065f60f9e874fb115d8255012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:19 +0000
Subject: [PATCH 07/83] fix: ellblock bml_sum_AB summed absolute values over
 blocks and overran its index buffer when MB < NB

---
 src/C-interface/ellblock/bml_norm_ellblock_typed.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index c22f389..6954560 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -99,7 +99,7 @@ double TYPED_FUNC(
 
     int ix[NB], jjb[MB];
 
-    memset(jjb, 0, NB * sizeof(int));
+    memset(jjb, 0, MB * sizeof(int));
 
     for (int ib = 0; ib < NB; ib++)
     {
@@ -147,11 +147,14 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
+            int jb = jjb[jp];
+            REAL_T *y_value = y_ptr[jb];
 
-            if (normx > threshold * threshold)
-                sum += normx;
+            for (int kk = 0; kk < bsize[ib] * bsize[jb]; kk++)
+            {
+                if (ABS(y_value[kk]) > threshold)
+                    sum += y_value[kk];
+            }
         }
     }
 
-- 
2.43.0


From 93344ecab6dec1f93bada185ebce1952abbf19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:03 +0000
Subject: [PATCH 08/83] fix: clearing an ellblock matrix left pointers to freed
 blocks behind

---
 .../ellblock/bml_allocate_ellblock.h          | 13 ++++++
 .../ellblock/bml_allocate_ellblock_typed.c    | 41 +++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.h b/src/C-interface/ellblock/bml_allocate_ellblock.h
index 955175d..e7678cd 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.h
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.h
@@ -243,4 +243,17 @@ void bml_free_block_ellblock_double_complex(
     bml_matrix_ellblock_t * A,
     const int ib,
     const int jb);
+
+void bml_clear_block_row_ellblock_single_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+void bml_clear_block_row_ellblock_double_real(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+void bml_clear_block_row_ellblock_single_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
+void bml_clear_block_row_ellblock_double_complex(
+    bml_matrix_ellblock_t * A,
+    const int ib);
 #endif
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..748f357 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -116,6 +116,34 @@ void TYPED_FUNC(
     A->nnzb[ib]--;
 }
 
+/** Release all the blocks of a block row.
+ *
+ * \ingroup allocate_group
+ *
+ * \param A The matrix.
+ * \param ib The block row.
+ */
+void TYPED_FUNC(
+    bml_clear_block_row_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int ib)
+{
+    for (int jp = 0; jp < A->nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+#ifndef BML_ELLBLOCK_USE_MEMPOOL
+        bml_free_memory(A->ptr_value[ind]);
+#endif
+        A->ptr_value[ind] = NULL;
+        A->indexb[ind] = -1;
+    }
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    A->memory_pool_ptr[ib] =
+        (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#endif
+    A->nnzb[ib] = 0;
+}
+
 /** Clear a matrix.
  *
  * Numbers of non-zeroes/row are set to zero.
@@ -128,19 +156,8 @@ void TYPED_FUNC(
     bml_clear_ellblock) (
     bml_matrix_ellblock_t * A)
 {
-#ifdef BML_ELLBLOCK_USE_MEMPOOL
-    for (int ib = 0; ib < A->NB; ib++)
-        A->memory_pool_ptr[ib] =
-            (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
-#else
     for (int ib = 0; ib < A->NB; ib++)
-        for (int jp = 0; jp < A->nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            bml_free_memory(A->ptr_value[ind]);
-        }
-#endif
-    memset(A->nnzb, 0, A->NB * sizeof(int));
+        TYPED_FUNC(bml_clear_block_row_ellblock) (A, ib);
 }
 
 bml_matrix_ellblock_t
-- 
2.43.0


From 1c3ccb24be7b8a045bf8444120bfa48ec744ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 09/83] fix: ellblock bml_copy reused the target's old blocks
 whatever their size, and leaked the others

---
 src/C-interface/ellblock/bml_copy_ellblock_typed.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..ee6166f 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -81,6 +81,12 @@ void TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
+    if (A == B)
+        return;
+
+    // release the blocks B holds, they may have other sizes
+    TYPED_FUNC(bml_clear_ellblock) (B);
+
     memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
 
     int *A_indexb = A->indexb;
@@ -96,11 +102,8 @@ void TYPED_FUNC(
             assert(A_ptr_value[ind] != NULL);
             int jb = B_indexb[ind];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
+            B_ptr_value[ind] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
             assert(B_ptr_value[ind] != NULL);
             memcpy(B_ptr_value[ind], A_ptr_value[ind],
                    nelements * sizeof(REAL_T));
-- 
2.43.0


From e0d92e5c2a442694f020e24acb7726804e177641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 10/83] fix: bml_copy_new refused ellblock matrices with blocks
 of 10 rows or more

---
 src/C-interface/ellblock/bml_copy_ellblock_typed.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index ee6166f..4d4a3e9 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -42,7 +42,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
-- 
2.43.0


From 5ed7c15d3ae2529f780d97e7440421395ac3b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 11/83] fix: ellblock bml_add stored blocks into old buffers of
 another size and leaked dropped blocks

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..cda6500 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -160,7 +160,10 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+
+        // the sums are in x now: release the old blocks of the row,
+        // those of the result may have other sizes
+        TYPED_FUNC(bml_clear_block_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -173,13 +176,9 @@ void TYPED_FUNC(
             if (is_above_threshold(normx, threshold))
             {
                 int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
-                {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
-                }
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
-- 
2.43.0


From 511c2608901eced4835ddcb165a6fe4a3674fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:42 +0000
Subject: [PATCH 12/83] fix: ellblock bml_add_norm wrote through missing
 blocks, overran its buffers and summed fourth powers

---
 .../ellblock/bml_add_ellblock_typed.c         | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index cda6500..b8ec6b3 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -234,17 +234,23 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+
+    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
 
@@ -305,7 +311,10 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
-        A_nnzb[ib] = l;
+
+        // release the old blocks of the row, those of the result may have
+        // other sizes
+        TYPED_FUNC(bml_clear_block_row_ellblock) (A, ib);
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -316,10 +325,14 @@ double TYPED_FUNC(
                 (x[jb], bsize[ib], bsize[jb], bsize[jb]);
             REAL_T normy = TYPED_FUNC(bml_sum_squares)
                 (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
+            trnorm += normy;
             if (is_above_threshold(normx, threshold))
             {
                 int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             bsize[ib] *
+                                                             bsize[jb]);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
@@ -337,6 +350,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    free(x[0]);
+    free(y[0]);
+
     return trnorm;
 }
 
-- 
2.43.0


From 59d0c0293a6925da2a28c27c1209ab45f51d484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 13/83] fix: dense bml_multiply_adjust_AB returned the
 transpose of the product

---
 src/C-interface/dense/bml_multiply_dense_typed.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/dense/bml_multiply_dense_typed.c b/src/C-interface/dense/bml_multiply_dense_typed.c
index ac28490..2dd8936 100644
--- a/src/C-interface/dense/bml_multiply_dense_typed.c
+++ b/src/C-interface/dense/bml_multiply_dense_typed.c
@@ -164,9 +164,6 @@ void TYPED_FUNC(
     bml_matrix_dense_t * B,
     bml_matrix_dense_t * C)
 {
-    REAL_T alpha = (REAL_T) 1.0;
-    REAL_T beta = (REAL_T) 0.0;
-
-    TYPED_FUNC(bml_gemm) ("T", "T", &A->N, &A->N, &A->N, &alpha, A->matrix,
-                          &A->N, B->matrix, &A->N, &beta, C->matrix, &A->N);
+    // nothing to adjust in a dense matrix
+    TYPED_FUNC(bml_multiply_AB_dense) (A, B, C);
 }
-- 
2.43.0


From 682b7c26f3a31c157be2acced70ffc39e5ba21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:44 +0000
Subject: [PATCH 14/83] fix: ellpack bml_multiply_adjust_AB overran full rows
 and could retry for ever

---
 .../ellpack/bml_multiply_ellpack_typed.c      | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..92120df 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -666,40 +666,39 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
-                // Diagonal elements are saved in first column
-                if (jp == i)
-                {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
-                }
-                else if (is_above_threshold(xtmp, adjust_threshold))
+                // Diagonal elements are always saved
+                if (jp == i || is_above_threshold(xtmp, adjust_threshold))
                 {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                    if (ll < C_M)
+                    {
+                        C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
+                        C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                    }
                     ll++;
                 }
                 ix[jp] = 0;
                 x[jp] = 0.0;
             }
+
+            // Number of non-zeroes per row exceeded, need to adjust threshold
+            if (ll > C_M)
+            {
+                aflag = 1;
+                ll = C_M;
+            }
             C_nnz[i] = ll;
         }
 
-        adjust_threshold *= (REAL_T) 2.0;
+        if (ABS(adjust_threshold) > 0.0)
+            adjust_threshold *= (REAL_T) 2.0;
+        else
+            adjust_threshold = (REAL_T) BML_REAL_EPSILON;
     }
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update to(C_nnz[:C_N], C_index[:C_N*C_M], C_value[:C_N*C_M])
-- 
2.43.0


From 203160d4454be113e07d6fbfd16787783c5e6373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:01 +0000
Subject: [PATCH 15/83] fix: ellpack bml_multiply_x2 checked the row capacity
 only after writing past it

---
 .../ellpack/bml_multiply_ellpack_typed.c      | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 92120df..8a40097 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -299,6 +299,25 @@ void *TYPED_FUNC(
         __assume_aligned(X2_value, MALLOC_ALIGNMENT);
 #endif
         int ll = 0;
+        // Check for number of non-zeroes per row exceeded, before
+        // assigning values to X2_value
+        if (l > X2_M)
+        {
+            int nkept = 0;
+            for (int j = 0; j < l; j++)
+            {
+                if (jx[j] == i || is_above_threshold(x[jx[j]], threshold))
+                {
+                    nkept++;
+                }
+            }
+#ifndef USE_OMP_OFFLOAD
+            if (nkept > X2_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
+#endif
+        }
         for (int j = 0; j < l; j++)
         {
             int jp = jx[j];
@@ -319,16 +338,6 @@ void *TYPED_FUNC(
             ix[jp] = 0;
             x[jp] = 0.0;
         }
-        // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
-        if (ll > X2_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         X2_nnz[i] = ll;
     }
 
-- 
2.43.0


From db3142469627003313b51bf682e10f3c6c438a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:01 +0000
Subject: [PATCH 16/83] fix: ellblock bml_multiply_x2 used the stride of
 another block for the trace of X2

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..56ae2fb 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -410,7 +410,7 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-- 
2.43.0


From 023065555614b3cb2f6736a13c28aca829a6d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:25 +0000
Subject: [PATCH 17/83] fix: ellblock bml_multiply_AB leaked the blocks of its
 target and left stale pointers behind

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 56ae2fb..29c1165 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -464,6 +464,9 @@ void TYPED_FUNC(
 
     int NB = A->NB;
 
+    /* release the blocks C holds */
+    TYPED_FUNC(bml_clear_ellblock) (C);
+
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
     int *bsize = A->bsize;
-- 
2.43.0


From 6c2c5bbd7e4b394310447a121c6bdc84c20348b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:44 +0000
Subject: [PATCH 18/83] fix: ellblock bml_multiply_adjust_AB multiplied blocks
 wrongly and wrote through missing ones

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 68 +++++++++++--------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 29c1165..66ddb87 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -698,24 +698,20 @@ void TYPED_FUNC(
                     // TEMPORARY STORAGE VECTOR LENGTH FULL N
                     REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
                     REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
-                        for (int jj = 0; jj < bsize[kb]; jj++)
-                        {
-                            int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
-                        }
+                    for (int ii = 0; ii < bsize[ib]; ii++)
+                        for (int jj = 0; jj < bsize[jb]; jj++)
+                            for (int kk = 0; kk < bsize[kb]; kk++)
+                            {
+                                x[ROWMAJOR(ii, kk, bsize[ib], bsize[kb])] +=
+                                    a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])]
+                                    * b[ROWMAJOR
+                                        (jj, kk, bsize[jb], bsize[kb])];
+                            }
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
-            {
-                aflag = 1;
-            }
+            // release the blocks C holds in this row
+            TYPED_FUNC(bml_clear_block_row_ellblock) (C, ib);
 
             int ll = 0;
             for (int jb = 0; jb < l; jb++)
@@ -724,27 +720,41 @@ void TYPED_FUNC(
                 REAL_T *xtmp = x_ptr[jp];
                 double normx = TYPED_FUNC(bml_norm_inf)
                     (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
+                // Diagonal blocks are always saved
+                if (jp == ib || normx > adjust_threshold)
                 {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
+                    if (ll < C->MB)
+                    {
+                        int nelements = bsize[ib] * bsize[jp];
+                        int ind = ROWMAJOR(ib, ll, NB, C->MB);
+                        C_ptr_value[ind] =
+                            TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                                     nelements);
+                        memcpy(C_ptr_value[ind], xtmp,
+                               nelements * sizeof(REAL_T));
+                        C_indexb[ind] = jp;
+                        C_nnzb[ib]++;
+                    }
                     ll++;
                 }
                 ix[jp] = 0;
                 memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
             }
-            C_nnzb[ib] = ll;
+
+            // Number of non-zero blocks per row exceeded, need to adjust
+            // threshold
+            if (ll > C->MB)
+            {
+                aflag = 1;
+            }
         }
 
-        adjust_threshold *= 2.0;
+        if (adjust_threshold > 0.0)
+            adjust_threshold *= 2.0;
+        else
+            adjust_threshold = BML_REAL_EPSILON;
     }
+
+    for (int ib = 0; ib < NB; ib++)
+        free(x_ptr[ib]);
 }
-- 
2.43.0


From 14bb4ceadf86a32fda34c4d7ebafef75bae4aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:07 +0000
Subject: [PATCH 19/83] fix: ellblock multiplication indexed past its table of
 kernels for blocks of more than 6 rows

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 66ddb87..c53338b 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -167,6 +167,31 @@ void TYPED_FUNC(
     }
 }
 
+/* inner dimension without a special version above */
+void TYPED_FUNC(
+    bml_multiply_blockn) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int kk = 0; kk < ld; kk++)
+                (*xk) += a[kk] * b[kk];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -302,7 +327,8 @@ void *TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_blockn)};
 
 #if defined(__IBMC__) || defined(__ibmxl__)
 #pragma omp parallel for                           \
@@ -377,7 +403,7 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, 7) - 1]) (X_value_left, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
@@ -515,7 +541,8 @@ void TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_blockn)};
 
     //loop over row blocks
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -581,7 +608,7 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, 7) - 1]) (A_value, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
             }
         }
-- 
2.43.0


From f57ed3cb84fc09b9593bac078b77ec21bb4c61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:07 +0000
Subject: [PATCH 20/83] fix: ellblock bml_transpose left a second pointer to
 blocks it moved

---
 src/C-interface/ellblock/bml_transpose_ellblock_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..44193b3 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -211,6 +211,8 @@ void TYPED_FUNC(
                     /* update nonzero count */
                     nz_t[jb]++;
                     A_nnzb[ib]--;
+                    A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)] = NULL;
+                    A_indexb[ROWMAJOR(ib, iposb, NB, MB)] = -1;
                     /* update ipos */
                     iposb--;
                 }
@@ -243,6 +245,8 @@ void TYPED_FUNC(
                 /* update nonzero count */
                 nz_t[jb]++;
                 A_nnzb[ib]--;
+                A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)] = NULL;
+                A_indexb[ROWMAJOR(ib, iposb, NB, MB)] = -1;
                 /* update ipos */
                 iposb--;
             }
-- 
2.43.0


From a9990c14a890e8f057ef6f25badeac208a1149f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 21/83] fix: ellpack bml_set_element stored a position twice in
 rows of one or two entries

---
 .../ellpack/bml_setters_ellpack_typed.c       | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..c530613 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -83,25 +83,16 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    for (int l = 0; l < A_nnz[i]; l++)
     {
-        for (int l = 0; l < A_nnz[i]; l++)
+        if (A_index[ROWMAJOR(i, l, A_N, A_M)] == j)     //Something in the row at the same position
         {
-            if (A_index[ROWMAJOR(i, l, A_N, A_M)] == j) //Something in the row at the same position
-            {
-                A_value[ROWMAJOR(i, l, A_N, A_M)] = *((REAL_T *) element);
-                ll = 1;
-                break;
-            }
-        }
-        if (ll == 0)            //There is something in the row but in a different position
-        {
-            A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
-            A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
-            A_nnz[i]++;
+            A_value[ROWMAJOR(i, l, A_N, A_M)] = *((REAL_T *) element);
+            ll = 1;
+            break;
         }
     }
-    else                        //There is nothing in the row
+    if (ll == 0)                //There is nothing in the row at that position
     {
         A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
         A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
-- 
2.43.0


From 85b070a84061afcd178e46f154ca005b1d670789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 22/83] fix: ellblock bml_set_row left old values where the new
 row is not above the threshold

---
 src/C-interface/ellblock/bml_setters_ellblock_typed.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..f0de4ac 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -156,8 +156,8 @@ void TYPED_FUNC(
     for (int k = 0; k < A_N; k++)
     {
         // printf("k=%d\n", k);
-        if (ABS(row[k]) > threshold)
         {
+            int above_threshold = ABS(row[k]) > threshold;
             //determine column block index and index within block
             int jb = 0;
             int jj = k;
@@ -174,11 +174,11 @@ void TYPED_FUNC(
                 {
                     REAL_T *A_value = A_ptr_value[ind];
                     A_value[ROWMAJOR(ii, jj, A_bsize[ib], A_bsize[jb])]
-                        = row[k];
+                        = above_threshold ? row[k] : (REAL_T) 0.0;
                     block_found = 1;
                 }
             }
-            if (block_found == 0)
+            if (block_found == 0 && above_threshold)
             {
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
-- 
2.43.0


From 1f52cb3ab291f31840cfd48fc76f02d574b78234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 23/83] fix: bml_get_element_<precision> called
 pointer-returning getters as if they returned values

---
 src/C-interface/bml_elemental.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index a350e96..ee12b4d 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -1,8 +1,7 @@
 #include "bml_elemental.h"
+#include "bml_getters.h"
 #include "bml_introspection.h"
 #include "bml_logger.h"
-#include "dense/bml_elemental_dense.h"
-#include "ellpack/bml_elemental_ellpack.h"
 
 #ifdef BML_COMPLEX
 #include <complex.h>
@@ -24,10 +23,10 @@ bml_get_element_single_real(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_single_real(A, i, j);
+            return *(float *) bml_get_element(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_single_real(A, i, j);
+            return *(float *) bml_get_element(A, i, j);
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -52,10 +51,10 @@ bml_get_element_double_real(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_double_real(A, i, j);
+            return *(double *) bml_get_element(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_double_real(A, i, j);
+            return *(double *) bml_get_element(A, i, j);
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -81,10 +80,10 @@ bml_get_element_single_complex(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_single_complex(A, i, j);
+            return *(float complex *) bml_get_element(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_single_complex(A, i, j);
+            return *(float complex *) bml_get_element(A, i, j);
             break;
         default:
             LOG_ERROR("unknown matrix type\n");
@@ -109,10 +108,10 @@ bml_get_element_double_complex(
     switch (bml_get_type(A))
     {
         case dense:
-            return bml_get_element_dense_double_complex(A, i, j);
+            return *(double complex *) bml_get_element(A, i, j);
             break;
         case ellpack:
-            return bml_get_element_ellpack_double_complex(A, i, j);
+            return *(double complex *) bml_get_element(A, i, j);
             break;
 
         default:
-- 
2.43.0


From 7d6d0824e98ac4825929afb3eeff2b3cb7ff4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 24/83] fix: ellpack bml_adjungate_triangle duplicated
 positions already stored and had one lock per column slot instead of per row

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 57 +++++++++++++++----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..f3aa17f 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -38,14 +38,15 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 #ifdef _OPENMP
-    omp_lock_t lock[A_M];
+    omp_lock_t lock[A_N];
 #endif
+    int row_nnz[A_N];
 
     switch (*triangle)
     {
         case 'u':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
@@ -53,14 +54,32 @@ void TYPED_FUNC(
 #pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
 
+            // drop the entries of the triangle that will be replaced
+            for (int i = 0; i < A_N; i++)
+            {
+                int n = 0;
+                for (int j = 0; j < A_nnz[i]; j++)
+                {
+                    int col = A_index[ROWMAJOR(i, j, A_N, A_M)];
+                    if (col < i)
+                        continue;
+                    A_index[ROWMAJOR(i, n, A_N, A_M)] = col;
+                    A_value[ROWMAJOR(i, n, A_N, A_M)] =
+                        A_value[ROWMAJOR(i, j, A_N, A_M)];
+                    n++;
+                }
+                A_nnz[i] = n;
+                row_nnz[i] = n;
+            }
+
 #pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
+  shared(A_N, A_M, A_index, A_nnz, A_value, lock, row_nnz) \
   private(l, ll)
             // WARNING: Please, check for race conditions ...
 
             for (int i = 0; i < A_N; i++)       // For every row
             {
-                l = A_nnz[i];
+                l = row_nnz[i];
                 for (int j = 0; j < l; j++)     // We search for indices gt 0.
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -84,7 +103,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
@@ -92,17 +111,35 @@ void TYPED_FUNC(
 
         case 'l':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
+            // drop the entries of the triangle that will be replaced
+            for (int i = 0; i < A_N; i++)
+            {
+                int n = 0;
+                for (int j = 0; j < A_nnz[i]; j++)
+                {
+                    int col = A_index[ROWMAJOR(i, j, A_N, A_M)];
+                    if (col > i)
+                        continue;
+                    A_index[ROWMAJOR(i, n, A_N, A_M)] = col;
+                    A_value[ROWMAJOR(i, n, A_N, A_M)] =
+                        A_value[ROWMAJOR(i, j, A_N, A_M)];
+                    n++;
+                }
+                A_nnz[i] = n;
+                row_nnz[i] = n;
+            }
+
 #pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
+  shared(lock, A_N, A_M, A_index, A_nnz, A_value, row_nnz)     \
   private(l, ll)
             //    WARNING: Please, check for race conditions and parallel performances ...
             for (int i = 0; i < A_N; i++)
             {
-                l = A_nnz[i];
+                l = row_nnz[i];
                 for (int j = 0; j < l; j++)
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -126,13 +163,13 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
             break;
         default:
-            LOG_ERROR("unknown triangle %c\n", triangle);
+            LOG_ERROR("unknown triangle %c\n", *triangle);
             break;
     }
 #if defined(USE_OMP_OFFLOAD)
-- 
2.43.0


From 816bcf13d045618e46456cea3aeed80d874429f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:20 +0000
Subject: [PATCH 25/83] fix: csr bml_threshold_new wrote every kept entry of a
 row to the same slot

---
 src/C-interface/csr/bml_threshold_csr_typed.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..7205719 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_threshold.h"
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_threshold_csr.h"
 #include "bml_types_csr.h"
 
@@ -39,9 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
 
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
@@ -51,10 +49,8 @@ bml_matrix_csr_t
             if (is_above_threshold(vals[pos], threshold))
             {
 //                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From 0af4bc59782c83adcc56415e4c58b3fcbd921fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:20 +0000
Subject: [PATCH 26/83] fix: bml_scale_add_identity passed a double as scale
 factor whatever the matrix precision

---
 src/C-interface/csr/bml_add_csr_typed.c           | 3 ++-
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 3 ++-
 src/C-interface/ellpack/bml_add_ellpack_typed.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..8fbb2cd 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -190,7 +190,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index b8ec6b3..d7487af 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -403,7 +403,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 46d5067..1d1a198 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -567,7 +567,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From dfb771b55b2fd83bcbb160125e771b83697899b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:20 +0000
Subject: [PATCH 27/83] fix: csr bml_add used a row's old storage after the row
 had been enlarged

---
 src/C-interface/csr/bml_add_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index 8fbb2cd..a0bc4dc 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -77,6 +77,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    // the row may have been moved to make room
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
-- 
2.43.0


From 7be36d6f56d0f801ecf6851d765fed74de90530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 28/83] fix: Gershgorin upper bound was never below DBL_MIN

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From 7fdf9e29f1baee7cedf8069246f6670e17ce6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:35 +0000
Subject: [PATCH 29/83] fix: bml_trace_mult computed the sum of A_ij*B_ij and,
 in ellpack, used uninitialised values for positions B does not store

---
 src/C-interface/dense/bml_trace_dense_typed.c | 11 ++++++--
 .../distributed2d/bml_trace_distributed2d.c   | 13 ++++++++-
 .../ellpack/bml_trace_ellpack_typed.c         | 28 +++++++++++--------
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..29d8fae 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -84,7 +84,7 @@ double TYPED_FUNC(
 }
 
 /** Calculate the trace of a matrix multiplication. The matrices must
- * be of the same size and symmetric.
+ * be of the same size.
  *
  *  \ingroup trace_group
  *
@@ -143,9 +143,14 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int j = 0; j < N; j++)
+        {
+            trace +=
+                A_matrix[ROWMAJOR(i, j, N, N)] *
+                B_matrix[ROWMAJOR(j, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
diff --git a/src/C-interface/distributed2d/bml_trace_distributed2d.c b/src/C-interface/distributed2d/bml_trace_distributed2d.c
index 704a71b..11924ef 100644
--- a/src/C-interface/distributed2d/bml_trace_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_trace_distributed2d.c
@@ -1,8 +1,12 @@
 #include "../bml_logger.h"
+#include "../bml_allocate.h"
 #include "../bml_trace.h"
+#include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "../bml_parallel.h"
+#include "bml_allocate_distributed2d.h"
 #include "bml_trace_distributed2d.h"
+#include "bml_transpose_distributed2d.h"
 #include "bml_types_distributed2d.h"
 
 #include <stdlib.h>
@@ -43,7 +47,14 @@ bml_trace_mult_distributed2d(
     bml_matrix_distributed2d_t * A,
     bml_matrix_distributed2d_t * B)
 {
-    double trace = bml_trace_mult(A->matrix, B->matrix);;
+    // trace(A*B) is the sum over all tiles of trace(A_rc*B_cr)
+    bml_matrix_distributed2d_t *BT = bml_transpose_new_distributed2d(B);
+    bml_matrix_t *Bcr = bml_transpose_new(BT->matrix);
+
+    double trace = bml_trace_mult(A->matrix, Bcr);
+
+    bml_deallocate(&Bcr);
+    bml_deallocate_distributed2d(BT);
 
     bml_sumRealReduce(&trace);
 
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..ff6d5b1 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,13 +115,12 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
     int rowMax = A_localRowMax[myRank];
 
-    if (A_N != B->N || A_M != B->M)
+    if (A_N != B->N)
     {
         LOG_ERROR
             ("bml_trace_mult_ellpack: Matrices A and B have different sizes.");
@@ -130,32 +129,37 @@ double TYPED_FUNC(
     int B_N = B->N;
     int B_M = B->M;
 
-#ifdef USE_OMP_OFFLOAD
     REAL_T *B_value = (REAL_T *) B->value;
     int *B_index = (int *) B->index;
     int *B_nnz = (int *) B->nnz;
+
+#ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (B_index[ROWMAJOR(k, l, B_N, B_M)] == i)
+                {
+                    trace +=
+                        A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
-- 
2.43.0


From 11918dbe3e36b8b907ef9aac49841205c17978a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 30/83] fix: csr bml_extract_submatrix leaked its row buffers

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..a5bf02c 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
-- 
2.43.0


From 4ebce6572f3d920b1796d40ad4cfa133045519c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 31/83] fix: bml_adjacency_group wrote one past its 1-based
 list and leaked the node list

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..fbbf0b5 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -497,7 +497,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
@@ -509,6 +509,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
-- 
2.43.0


From 2e6c5b7448cf523d623a3c47b6918fbdd3ea3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 32/83] fix: bml_adjacency decided from row 0 alone whether
 rows store their diagonal

---
 .../ellpack/bml_submatrix_ellpack.c           | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index fbbf0b5..e86e7ad 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,27 +349,19 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Do not count the diagonal element, which a row may store or not
+    for (int i = 1; i < A_N + 1; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        int count = 0;
+        for (int jj = 0; jj < A_nnz[i - 1]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i - 1, jj, A_N, A_M)] != i - 1)
+                count++;
         }
-    }
-
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
+        xadj[i] = xadj[i - 1] + count;
     }
 
 #pragma omp parallel for                                \
-- 
2.43.0


From b1693d2ad04f89a5f7be919eb9aee0892c54cdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 33/83] fix: ellpack bml_transpose_new leaked its row locks

---
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..f761838 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -98,6 +98,15 @@ bml_matrix_ellpack_t
         }
     }                           // end target region
 
+#ifdef _OPENMP
+#pragma omp parallel for
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
+
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
-- 
2.43.0


From a7241a489ba5994c0484387d5ac9ffcf623b221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 34/83] fix: bml_matrix2submatrix copied uninitialised values
 for rows storing nothing

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..4c57ff9 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
-- 
2.43.0


From 6595f07ef071c5fe01acb9f46111af1417ed6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 35/83] fix: bml_submatrix2matrix checked the row capacity only
 after writing past it

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 4c57ff9..e5da216 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,16 +352,17 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
 
         B_nnz[ii] = icol;
     }
-- 
2.43.0


From a716f4193441af92248c6096a5aed210519e2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 36/83] fix: bml_assign_submatrix stored elements twice instead
 of replacing the block, in ellpack, csr and ellblock

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 15 +++++++
 .../ellblock/bml_submatrix_ellblock_typed.c   | 45 ++++++++++++++-----
 .../ellpack/bml_submatrix_ellpack_typed.c     | 20 +++++++++
 3 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index a5bf02c..d75e4a9 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -90,6 +90,21 @@ void TYPED_FUNC(
         }
         REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (B->data_[i]);
 
+        // remove the entries of A the block replaces
+        csr_sparse_row_t *arow = A->data_[i + irow];
+        REAL_T *avals = (REAL_T *) arow->vals_;
+        int count = 0;
+        for (int j = 0; j < arow->NNZ_; j++)
+        {
+            if (arow->cols_[j] < icol || arow->cols_[j] >= icol + B_N)
+            {
+                arow->cols_[count] = arow->cols_[j];
+                avals[count] = avals[j];
+                count++;
+            }
+        }
+        arow->NNZ_ = count;
+
         for (int j = 0; j < nz; j++)
         {
             TYPED_FUNC(csr_set_row_element_new) (A->data_[i + irow],
diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..e7bf81e 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -34,16 +34,6 @@ bml_matrix_ellblock_t
     int *A_nnzb = A->nnzb;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    bml_matrix_ellblock_t *B;
-    B = TYPED_FUNC(bml_zero_matrix_ellblock) (B_N, B_M, A->distribution_mode);
-
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    int B_NB = B->NB;
-    int B_MB = B->MB;
-
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
@@ -68,9 +58,23 @@ bml_matrix_ellblock_t
     int nb = 0;
     while (count < B_N)
     {
-        count += bsize[nb];
+        assert(bsize[irowb + nb] == bsize[icolb + nb]);
+        count += bsize[irowb + nb];
         nb++;
     }
+    assert(count == B_N);
+
+    // B has the blocks of A it covers
+    bml_matrix_ellblock_t *B =
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, nb, B_M, bsize + irowb,
+                                               A->distribution_mode);
+
+    int *B_indexb = B->indexb;
+    int *B_nnzb = B->nnzb;
+    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
+
+    int B_NB = B->NB;
+    int B_MB = B->MB;
 
     // loop over subset of block rows of A
     for (int ib = irowb; ib < irowb + nb; ib++)
@@ -152,10 +156,27 @@ void TYPED_FUNC(
     // loop over block rows of B
     for (int ib = 0; ib < B_NB; ib++)
     {
+        assert(B->bsize[ib] == bsize[ib + irowb]);
+        assert(B->bsize[ib] == bsize[ib + icolb]);
+
+        // remove the blocks of A that B replaces
+        for (int jp = A_nnzb[ib + irowb] - 1; jp >= 0; jp--)
+        {
+            int jb = A_indexb[ROWMAJOR(ib + irowb, jp, A_NB, A_MB)];
+            if (jb >= icolb && jb < icolb + B_NB)
+            {
+                TYPED_FUNC(bml_free_block_ellblock) (A, ib + irowb, jb);
+            }
+        }
+
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
             int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
-            int nelements = bsize[ib] * bsize[jb];
+            int nelements = B->bsize[ib] * B->bsize[jb];
+            if (A_nnzb[ib + irowb] == A_MB)
+            {
+                LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
             A_ptr_value[indA] =
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index e5da216..d690568 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -629,10 +629,30 @@ void TYPED_FUNC(
     // loop over rows of B
     for (int i = 0; i < B_N; i++)
     {
+        // remove the elements of A the block replaces
+        int count = 0;
+        for (int jp = 0; jp < A_nnz[i + irow]; jp++)
+        {
+            int jA = A_index[ROWMAJOR(i + irow, jp, A_N, A_M)];
+            if (jA < icol || jA >= icol + B_N)
+            {
+                A_index[ROWMAJOR(i + irow, count, A_N, A_M)] = jA;
+                A_value[ROWMAJOR(i + irow, count, A_N, A_M)] =
+                    A_value[ROWMAJOR(i + irow, jp, A_N, A_M)];
+                count++;
+            }
+        }
+        A_nnz[i + irow] = count;
+
         for (int jp = 0; jp < B_nnz[i]; jp++)
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
             int jpA = A_nnz[i + irow];
+            if (jpA >= A_M)
+            {
+                LOG_ERROR
+                    ("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i + irow, jpA, A_N, A_M)] =
                 B_value[ROWMAJOR(i, jp, B_N, B_M)];
             A_index[ROWMAJOR(i + irow, jpA, A_N, A_M)] = jB + icol;
-- 
2.43.0


From b09754675ec2f9d01f56510a15d2afa6ff7866c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 37/83] fix: ellblock matrices of another size got the block
 sizes of the first matrix; noinit failed on the first one

---
 .../ellblock/bml_allocate_ellblock.c          | 63 ++++++++++++++-----
 .../ellblock/bml_allocate_ellblock_typed.c    |  9 ++-
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..cf62961 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -14,6 +14,12 @@
  */
 static int *s_default_bsize = NULL;
 static int s_default_block_dim = 4;
+static int s_default_N = 0;
+static int s_default_mb = 0;
+static int *s_user_bsize = NULL;
+static int s_user_N = 0;
+static int s_user_nb = 0;
+static int s_user_mb = 0;
 static int s_nb = 0;
 static int s_mb = 0;
 
@@ -38,10 +44,14 @@ bml_set_block_sizes(
 
     s_nb = nb;
     s_mb = mb;
-    s_default_bsize = malloc(nb * sizeof(int));
+    s_user_nb = nb;
+    s_user_mb = mb;
+    s_user_N = 0;
+    s_user_bsize = malloc(nb * sizeof(int));
     for (int ib = 0; ib < nb; ib++)
     {
-        s_default_bsize[ib] = bsize[ib];
+        s_user_bsize[ib] = bsize[ib];
+        s_user_N += bsize[ib];
     }
 }
 
@@ -50,26 +60,45 @@ bml_get_block_sizes(
     int N,
     int M)
 {
-    if (s_default_bsize == NULL)
+    // sizes set by the user are for matrices of that size only
+    if (s_user_bsize != NULL && s_user_N == N)
     {
-        assert(M > 0);
+        s_nb = s_user_nb;
+        s_mb = s_user_mb;
+        return s_user_bsize;
+    }
 
-        s_nb = N / s_default_block_dim;
-        if (s_nb * s_default_block_dim < N)
-            s_nb++;
-        printf("s_nb = %d\n", s_nb);
+    assert(M > 0);
+
+    s_nb = N / s_default_block_dim;
+    if (s_nb * s_default_block_dim < N)
+        s_nb++;
+
+    s_mb = M / s_default_block_dim;
+    if (s_mb * s_default_block_dim < M)
+        s_mb++;
+    if (s_mb < 4)
+        s_mb = 4;
+    // the number of blocks/row cannot exceed the number
+    // of row blocks
+    if (s_mb > s_nb)
+        s_mb = s_nb;
 
-        s_mb = M / s_default_block_dim;
-        if (s_mb * s_default_block_dim < M)
-            s_mb++;
-        if (s_mb < 4)
-            s_mb = 4;
-        // the number of blocks/row cannot exceed the number
-        // of row blocks
-        if (s_mb > s_nb)
-            s_mb = s_nb;
+    if (s_default_N == N)
+    {
+        // the capacity can grow, but does not shrink
+        if (s_mb < s_default_mb)
+            s_mb = s_default_mb;
+        s_default_mb = s_mb;
+    }
+    else
+    {
+        printf("s_nb = %d\n", s_nb);
         printf("s_mb = %d\n", s_mb);
 
+        bml_free_memory(s_default_bsize);
+        s_default_N = N;
+        s_default_mb = s_mb;
         s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
         for (int ib = 0; ib < s_nb - 1; ib++)
         {
diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 748f357..1bf407f 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -169,9 +169,12 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
-    return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
+    //use default block values that could have been reset by user
+    int *bsize = bml_get_block_sizes(N, M);
+    int mb = bml_get_mb();
+    int nb = bml_get_nb();
+
+    return TYPED_FUNC(bml_block_matrix_ellblock) (nb, mb, M, bsize,
                                                   distrib_mode);
 }
 
-- 
2.43.0


From 03fff01f83f2de483e0488dbef125c897951cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 38/83] fix: ellblock bml_copy assumed both matrices can store
 the same number of blocks per row

---
 .../ellblock/bml_copy_ellblock_typed.c         | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index 4d4a3e9..b579d61 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
@@ -90,21 +91,28 @@ void TYPED_FUNC(
 
     int *A_indexb = A->indexb;
     int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
+    int B_MB = B->MB;
 
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
     {
+        assert(A->bsize[ib] == B->bsize[ib]);
+        if (A->nnzb[ib] > B_MB)
+        {
+            LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+        }
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            int indB = ROWMAJOR(ib, jp, NB, B_MB);
             assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int jb = A_indexb[ind];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            B_ptr_value[ind] =
+            B_indexb[indB] = jb;
+            B_ptr_value[indB] =
                 TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            assert(B_ptr_value[indB] != NULL);
+            memcpy(B_ptr_value[indB], A_ptr_value[ind],
                    nelements * sizeof(REAL_T));
         }
     }
-- 
2.43.0


From 7f46e6b184b0293ea4ed58263bb433b2ec21b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 39/83] fix: ellblock bml_trace_mult refused matrices with
 different numbers of blocks per row

---
 src/C-interface/ellblock/bml_trace_ellblock_typed.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_trace_ellblock_typed.c b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
index 9383a12..9fc20b9 100644
--- a/src/C-interface/ellblock/bml_trace_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_trace_ellblock_typed.c
@@ -85,7 +85,9 @@ double TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
-    if (NB != B->NB || MB != B->MB)
+    int B_MB = B->MB;
+
+    if (NB != B->NB)
     {
         LOG_ERROR
             ("bml_trace_mult_ellblock: Matrices A and B have different number of blocks.");
@@ -101,7 +103,7 @@ double TYPED_FUNC(
 
             for (int kp = 0; kp < B_nnzb[jb]; kp++)
             {
-                int indB = ROWMAJOR(jb, kp, NB, MB);
+                int indB = ROWMAJOR(jb, kp, NB, B_MB);
                 int kb = B_indexb[indB];
                 if (kb == ib)
                 {
-- 
2.43.0


From ae42ba46c3c86489673c8d21b59f186314b2dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 40/83] fix: ellpack in-place transpose wrote past the end of a
 full row

---
 .../ellpack/bml_transpose_ellpack_typed.c     | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index f761838..373aa76 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
+#include "bml_copy_ellpack.h"
 #include "bml_transpose_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "../bml_logger.h"
@@ -20,7 +21,6 @@
 
 #ifdef BML_USE_CUSPARSE
 #include <cusparse.h>
-#include "bml_copy_ellpack.h"
 #endif
 
 #define COMPUTE_ON_HOST
@@ -87,6 +87,11 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+                if (colcnt >= M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -421,6 +426,40 @@ void TYPED_FUNC(
      * consider: ellpack_transpose_right_looking(A) - for structurally symmetric matrices
      * Either algorithm is sufficient for arbitrary sparse matrices
     */
+#if !defined(BML_USE_CUSPARSE) && !defined(USE_OMP_OFFLOAD)
+    /* While the matrix is transposed in place a row may hold entries of both
+     * the old and the new matrix. Without room for that use a new matrix. */
+    int N = A->N;
+    int M = A->M;
+
+    if (M < N)
+    {
+        int count[N];
+        int fits = 1;
+
+        memcpy(count, A->nnz, sizeof(int) * N);
+        for (int i = 0; i < N; i++)
+        {
+            for (int ipos = 0; ipos < A->nnz[i]; ipos++)
+            {
+                count[A->index[ROWMAJOR(i, ipos, N, M)]]++;
+            }
+        }
+        for (int i = 0; i < N; i++)
+        {
+            if (count[i] > M)
+                fits = 0;
+        }
+        if (!fits)
+        {
+            bml_matrix_ellpack_t *B =
+                TYPED_FUNC(bml_transpose_new_ellpack) (A);
+            TYPED_FUNC(bml_copy_ellpack) (B, A);
+            bml_deallocate_ellpack(B);
+            return;
+        }
+    }
+#endif
     TYPED_FUNC(ellpack_transpose_left_looking) (A);
 }    
 
-- 
2.43.0


From 64f29f1c6caaa5165c3abc964a647da8dd91c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:39 +0000
Subject: [PATCH 41/83] fix: ellpack setters, import and adjungate wrote past a
 full row

---
 .../bml_adjungate_triangle_ellpack_typed.c    |  8 +++++++
 .../ellpack/bml_import_ellpack_typed.c        |  4 ++++
 .../ellpack/bml_setters_ellpack_typed.c       | 21 +++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index f3aa17f..90097fd 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -90,6 +90,10 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -150,6 +154,10 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..90e31b5 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,10 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] >= M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index c530613..3b9d04d 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
 #include "bml_types_ellpack.h"
@@ -40,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] >= A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -94,6 +99,10 @@ void TYPED_FUNC(
     }
     if (ll == 0)                //There is nothing in the row at that position
     {
+        if (A_nnz[i] >= A_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
         A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
         A_nnz[i]++;
@@ -140,6 +149,12 @@ void TYPED_FUNC(
             if (ABS(row[j]) > threshold)
             {
                 ll++;
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
 
                 A_value[ROWMAJOR(i, ll, A_N, A_M)] = row[j];
                 A_index[ROWMAJOR(i, ll, A_N, A_M)] = j;
@@ -202,6 +217,12 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+#ifndef USE_OMP_OFFLOAD
+                if (A_nnz[i] >= A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
-- 
2.43.0


From 7c910f7fbc91bbaf5755c1db2a4adc251cfcb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 42/83] fix: ellblock multiply leaked the traces when squaring
 a matrix

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index c53338b..1d0b38f 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -217,6 +217,8 @@ void TYPED_FUNC(
     double ONE = 1.0;
     double ZERO = 0.0;
 
+    void *trace = NULL;
+
     if (A == NULL || B == NULL)
     {
         LOG_ERROR("Either matrix A or B are NULL\n");
@@ -224,7 +226,7 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        trace = TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
     }
     else
     {
@@ -235,7 +237,7 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            trace = TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
         }
         else
         {
@@ -253,6 +255,7 @@ void TYPED_FUNC(
 
         bml_deallocate_ellblock(A2);
     }
+    bml_free_memory(trace);
 }
 
 /** Matrix multiply.
-- 
2.43.0


From ac88a3669e4ad6eb3aae174f747dd20913310090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 43/83] fix: bml_get_distribution_mode handles ellblock and
 distributed2d matrices

---
 src/C-interface/bml_introspection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..8f4fb64 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -279,9 +279,17 @@ bml_get_distribution_mode(
         case ellpack:
             return bml_get_distribution_mode_ellpack(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
-- 
2.43.0


From 529fcf852541a7ed04a2a1273fab518fc2015622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 44/83] fix: bml_get_sparsity does not overflow for N > 46340

---
 src/C-interface/csr/bml_introspection_csr_typed.c           | 2 +-
 src/C-interface/dense/bml_introspection_dense_typed.c       | 2 +-
 src/C-interface/ellblock/bml_introspection_ellblock_typed.c | 2 +-
 src/C-interface/ellpack/bml_introspection_ellpack_typed.c   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_introspection_csr_typed.c b/src/C-interface/csr/bml_introspection_csr_typed.c
index 4c2d941..da54eba 100644
--- a/src/C-interface/csr/bml_introspection_csr_typed.c
+++ b/src/C-interface/csr/bml_introspection_csr_typed.c
@@ -43,6 +43,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * (double) N));
     return sparsity;
 }
diff --git a/src/C-interface/dense/bml_introspection_dense_typed.c b/src/C-interface/dense/bml_introspection_dense_typed.c
index 6cc16aa..9541279 100644
--- a/src/C-interface/dense/bml_introspection_dense_typed.c
+++ b/src/C-interface/dense/bml_introspection_dense_typed.c
@@ -118,7 +118,7 @@ double TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     free(A_matrix);
 #endif
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * (double) N));
 
     return sparsity;
 }
diff --git a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
index 167dafa..bcde3dd 100644
--- a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
@@ -56,6 +56,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A->N * A->N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A->N * (double) A->N));
     return sparsity;
 }
diff --git a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
index e6b8a7c..6b3046c 100644
--- a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
@@ -49,6 +49,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A_N * A_N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A_N * (double) A_N));
     return sparsity;
 }
-- 
2.43.0


From 9d39477e72c259ff51bfd37681122beb7adb0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 45/83] fix: default domain local extents exact for large N and
 set in sequential mode

---
 src/C-interface/bml_allocate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..736329d 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -636,7 +636,8 @@ bml_default_domain(
                     domain->localRowExtent[i] * domain->totalCols;
                 domain->localDispl[i] = 0;
             }
-
+            domain->maxLocalExtent = domain->globalRowExtent;
+            domain->minLocalExtent = domain->globalRowExtent;
         }
             break;
 
@@ -644,7 +645,7 @@ bml_default_domain(
         {
             // For completely distributed
             avgExtent = N / nRanks;
-            domain->maxLocalExtent = ceil((float) N / (float) nRanks);
+            domain->maxLocalExtent = avgExtent + (N % nRanks > 0 ? 1 : 0);
             domain->minLocalExtent = avgExtent;
 
             for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From bd1e2b349bbc647e15faf03e96a8a765a035f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 46/83] fix: bml_sqrtint does not overflow near INT_MAX

---
 src/C-interface/bml_utilities.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_utilities.c b/src/C-interface/bml_utilities.c
index 4d28820..57e923c 100644
--- a/src/C-interface/bml_utilities.c
+++ b/src/C-interface/bml_utilities.c
@@ -563,11 +563,11 @@ bml_sqrtint(
     const int x)
 {
     int i = 1;
-    int result = 1;
+    long long result = 1;
     while (result < x)
     {
         i++;
-        result = i * i;
+        result = (long long) i * i;
     }
     return i;
 }
-- 
2.43.0


From 8fde7b0cdaf42233aa19c1a37d05e68a64baeea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 47/83] fix: dense reader clears the matrix, honours symmetric
 files and rejects a wrong size

---
 .../dense/bml_utilities_dense_typed.c         | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..19b5c2f 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -63,6 +63,17 @@ void TYPED_FUNC(
         LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
     }
 
+    if (hdimx != N)
+    {
+        LOG_ERROR("file holds a %d x %d matrix, expected %d x %d\n", hdimx,
+                  hdimx, N, N);
+    }
+
+    // The file lists the non-zero elements only
+    memset(A_matrix, 0, sizeof(REAL_T) * (size_t) N * N);
+
+    int symflag = strcmp(header5, "symmetric");
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
@@ -74,6 +85,11 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, element (%d, %d) outside of matrix\n", i + 3,
+                      irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(DOUBLE_REAL)
         if ((values_read =
@@ -83,6 +99,11 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, element (%d, %d) outside of matrix\n", i + 3,
+                      irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(SINGLE_COMPLEX)
         if ((values_read =
@@ -92,6 +113,11 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, element (%d, %d) outside of matrix\n", i + 3,
+                      irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #elif defined(DOUBLE_COMPLEX)
@@ -102,11 +128,23 @@ void TYPED_FUNC(
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, element (%d, %d) outside of matrix\n", i + 3,
+                      irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #else
         LOG_ERROR("unknown precision\n");
 #endif
+
+        // Set symmetric value if necessary
+        if (symflag == 0)
+        {
+            A_matrix[ROWMAJOR(icol - 1, irow - 1, N, N)] =
+                A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)];
+        }
     }
 
 #ifdef BML_USE_MAGMA
-- 
2.43.0


From bfbcc2d8d82ed502b4b8b01317fd72fad62a527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 48/83] fix: ellpack reader replaces the contents and rejects a
 file that does not fit

---
 .../ellpack/bml_utilities_ellpack_typed.c      | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..c8e26af 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_allocate_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "bml_utilities_ellpack.h"
 
@@ -60,6 +61,15 @@ void TYPED_FUNC(
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    if (hdimx != N)
+    {
+        LOG_ERROR("file holds a %d x %d matrix, expected %d x %d\n", hdimx,
+                  hdimx, N, N);
+    }
+
+    // The file replaces the matrix
+    TYPED_FUNC(bml_clear_ellpack) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
@@ -95,9 +105,15 @@ void TYPED_FUNC(
         LOG_ERROR("unknown precision\n");
 #endif
 
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("element (%d, %d) outside of matrix\n", irow, icol);
+        }
         irow--;
         icol--;
         ind = A_nnz[irow];
+        if (ind >= M)
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
         A_index[ROWMAJOR(irow, ind, N, M)] = icol;
         A_value[ROWMAJOR(irow, ind, N, M)] = value;
         A_nnz[irow]++;
@@ -106,6 +122,8 @@ void TYPED_FUNC(
         if (symflag == 0 && icol != irow)
         {
             ind = A_nnz[icol];
+            if (ind >= M)
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
             A_index[ROWMAJOR(icol, ind, N, M)] = irow;
             A_value[ROWMAJOR(icol, ind, N, M)] = value;
             A_nnz[icol]++;
-- 
2.43.0


From 3d6f68eec5ae649d4bd0fe01b81ae5b3fc6e0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 49/83] fix: csr reader replaces the contents and rejects a
 file that does not fit

---
 src/C-interface/csr/bml_utilities_csr_typed.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..06f2723 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_types.h"
 #include "../bml_utilities.h"
 #include "bml_types_csr.h"
+#include "bml_allocate_csr.h"
 #include "bml_setters_csr.h"
 #include "bml_utilities_csr.h"
 
@@ -52,6 +53,15 @@ void TYPED_FUNC(
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    if (hdimx != A->N_)
+    {
+        LOG_ERROR("file holds a %d x %d matrix, expected %d x %d\n", hdimx,
+                  hdimx, A->N_, A->N_);
+    }
+
+    // The file replaces the matrix
+    TYPED_FUNC(bml_clear_csr) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
@@ -89,6 +99,10 @@ void TYPED_FUNC(
         LOG_ERROR("unknown precision\n");
 #endif
 
+        if (irow < 1 || irow > A->N_ || icol < 1 || icol > A->N_)
+        {
+            LOG_ERROR("element (%d, %d) outside of matrix\n", irow, icol);
+        }
         irow--;
         icol--;
         // set new element
-- 
2.43.0


From f18a0fc9651231491d2d9759dffadb4a7112748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 50/83] fix: ellblock reader replaces the contents and rejects
 a file that does not fit

---
 .../ellblock/bml_utilities_ellblock_typed.c   | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..f7e425c 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -57,6 +57,15 @@ void TYPED_FUNC(
         LOG_ERROR("read error\n");
     }
 
+    if (hdimx != A->N)
+    {
+        LOG_ERROR("file holds a %d x %d matrix, expected %d x %d\n", hdimx,
+                  hdimx, A->N, A->N);
+    }
+
+    // The file replaces the matrix
+    TYPED_FUNC(bml_clear_ellblock) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
@@ -83,6 +92,10 @@ void TYPED_FUNC(
         LOG_ERROR("unknown matrix precision\n");
 #endif
 
+        if (irow < 1 || irow > A->N || icol < 1 || icol > A->N)
+        {
+            LOG_ERROR("element (%d, %d) outside of matrix\n", irow, icol);
+        }
         irow--;
         icol--;
 
@@ -132,7 +145,7 @@ void TYPED_FUNC(
         }
 
         // Set symmetric value if necessary
-        if (symflag == 0 && icol != irow)
+        if (symflag == 0 && (icol != irow || ib != jb))
         {
             int found_block = 0;
             for (int ip = 0; ip < A_nnzb[jb]; ip++)
@@ -150,10 +163,16 @@ void TYPED_FUNC(
             //add block if needed
             if (found_block == 0)
             {
-                A_indexb[A_nnzb[jb]] = ib;
+                assert(A_nnzb[jb] < MB);
                 int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
+                A_indexb[ind] = ib;
                 A_nnzb[jb]++;
+                int nelements = A_bsize[jb] * A_bsize[ib];
+                A_ptr_value[ind] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, jb,
+                                                             nelements);
                 REAL_T *A_value = A_ptr_value[ind];
+                memset(A_value, 0, nelements * sizeof(REAL_T));
                 A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
                     value;
             }
-- 
2.43.0


From 28c1fad153a505b3f0b0f85bcca13f21f2d5f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 51/83] fix: bml_read_bml_matrix reports a file that cannot be
 opened

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 4 ++++
 src/C-interface/dense/bml_utilities_dense_typed.c       | 4 ++++
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 4 ++++
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 06f2723..3ec2ed2 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -32,6 +32,10 @@ void TYPED_FUNC(
     REAL_T value;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 19b5c2f..30b003a 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -47,6 +47,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "r");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if ((values_read = fscanf
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index f7e425c..eab840d 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -41,6 +41,10 @@ void TYPED_FUNC(
     int *A_bsize = A->bsize;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index c8e26af..54d7393 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -40,6 +40,10 @@ void TYPED_FUNC(
     int *A_nnz = A->nnz;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("cannot open file %s\n", filename);
+    }
 
     // Read header
     if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-- 
2.43.0


From 8b6319addb39a0ae78f4f80245ab604722a48d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 52/83] fix: bml_copy_domain copies the local extents

---
 src/C-interface/bml_copy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/bml_copy.c b/src/C-interface/bml_copy.c
index d24ed31..3c497c3 100644
--- a/src/C-interface/bml_copy.c
+++ b/src/C-interface/bml_copy.c
@@ -159,6 +159,8 @@ bml_copy_domain(
     memcpy(B->localRowExtent, A->localRowExtent, nRanks * sizeof(int));
     memcpy(B->localDispl, A->localDispl, nRanks * sizeof(int));
     memcpy(B->localElements, A->localElements, nRanks * sizeof(int));
+    B->minLocalExtent = A->minLocalExtent;
+    B->maxLocalExtent = A->maxLocalExtent;
 }
 
 
-- 
2.43.0


From b10845502c2f84804538d5d658fd40a55cda4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 53/83] fix: conversion to ellpack stores the non-zero elements
 only

---
 src/C-interface/ellpack/bml_convert_ellpack_typed.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..e655cc5 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -30,7 +30,10 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     {
         for (int j = 0; j < N; j++)
         {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
+            REAL_T *element = bml_get_element(A, i, j);
+            // only non-zero elements take space in a row
+            if (*element != 0.0)
+                bml_set_element(B, i, j, element);
         }
     }
 
-- 
2.43.0


From e35b1ec1bb48f8fc8deb629550ef87e79c14af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 54/83] fix: ellpack add and extract_submatrix refuse rows
 longer than M

---
 .../ellpack/bml_add_ellpack_typed.c           | 22 +++++++++++++++++++
 .../ellpack/bml_submatrix_ellpack_typed.c     |  5 +++++
 2 files changed, 27 insertions(+)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 1d1a198..4e4209f 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
@@ -195,6 +196,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -385,6 +393,13 @@ double TYPED_FUNC(
             trnorm += y[jind] * COMPLEX_CONJUGATE(y[jind]);
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -533,6 +548,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index d690568..508cb02 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -589,6 +589,11 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
-- 
2.43.0


From 9cd121ee9bf34292a4fbdb04e5edf3bd69a979d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:39 +0000
Subject: [PATCH 55/83] fix: default ellblock block table has room for a band
 of width M

---
 src/C-interface/ellblock/bml_allocate_ellblock.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index cf62961..15ccbfc 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -74,9 +74,8 @@ bml_get_block_sizes(
     if (s_nb * s_default_block_dim < N)
         s_nb++;
 
-    s_mb = M / s_default_block_dim;
-    if (s_mb * s_default_block_dim < M)
-        s_mb++;
+    // number of blocks a band of width M can overlap in a row of blocks
+    s_mb = (M + 2 * s_default_block_dim - 3) / s_default_block_dim + 1;
     if (s_mb < 4)
         s_mb = 4;
     // the number of blocks/row cannot exceed the number
-- 
2.43.0


From 039a5890c286c5f4477636fbc2e118f15fb20354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 56/83] fix: ellpack group_matrix lost links between groups
 handled by the same thread

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 508cb02..b57f812 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -502,7 +502,7 @@ bml_matrix_ellpack_t
             for (int k = 0; k < A_nnz[j]; k++)
             {
                 int ii = hnode[A_index[ROWMAJOR(j, k, A_N, A_M)]];
-                if (ix[ii] == 0 && ii != i)
+                if (ix[ii] != i + 1 && ii != i)
                 {
                     //printf("row = %d col = %d val = %e\n", j, A_index[ROWMAJOR(j, k, A_N, A_M)], A_value[ROWMAJOR(j, k, A_N, A_M)]);
                     if (is_above_threshold(A_value[ROWMAJOR(j, k, A_N, A_M)],
-- 
2.43.0


From bc5cea303fce86d3d626962693b9405be8290b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 57/83] fix: bml_reorder of a dense matrix permutes rows and
 columns alike

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..41d4dfa 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Reorder rows and the elements in each row
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From 478f0223e72a5afee92585746d0e23d1364cc5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 58/83] fix: bml_reorder of an ellblock matrix moves the blocks

---
 .../ellblock/bml_copy_ellblock_typed.c        | 74 ++++++++++---------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index b579d61..05faee2 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -123,7 +123,7 @@ void TYPED_FUNC(
  *  \ingroup copy_group
  *
  *  \param A The matrix to be reordered
- *  \param B The permutation vector
+ *  \param perm The permutation vector of the blocks
  */
 void TYPED_FUNC(
     bml_reorder_ellblock) (
@@ -138,44 +138,48 @@ void TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     int *A_bsize = A->bsize;
 
-    bml_matrix_ellblock_t *B = bml_copy_new(A);
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-    int *B_bsize = B->bsize;
-
-    for (int i = 0; i < NB; i++)
-    {
-        A_bsize[i] = B_bsize[perm[i]];
-    }
-
-    // Reorder rows - need to copy
+    int *B_indexb = bml_noinit_allocate_memory(NB * MB * sizeof(int));
+    int *B_nnzb = bml_noinit_allocate_memory(NB * sizeof(int));
+    REAL_T **B_ptr_value =
+        bml_noinit_allocate_memory(NB * MB * sizeof(REAL_T *));
+    int *B_bsize = bml_noinit_allocate_memory(NB * sizeof(int));
+    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
+    memcpy(B_nnzb, A_nnzb, NB * sizeof(int));
+    memcpy(B_ptr_value, A_ptr_value, NB * MB * sizeof(REAL_T *));
+    memcpy(B_bsize, A_bsize, NB * sizeof(int));
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    void **B_memory_pool_ptr =
+        bml_noinit_allocate_memory(NB * sizeof(void *));
+    int *B_memory_pool_offsets =
+        bml_noinit_allocate_memory(NB * sizeof(int));
+    memcpy(B_memory_pool_ptr, A->memory_pool_ptr, NB * sizeof(void *));
+    memcpy(B_memory_pool_offsets, A->memory_pool_offsets, NB * sizeof(int));
+#endif
+
+    // Reorder block rows, and the block index of the blocks in each row
     for (int ib = 0; ib < NB; ib++)
     {
-        memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
-               &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
-        }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
+        A_bsize[perm[ib]] = B_bsize[ib];
         A_nnzb[perm[ib]] = B_nnzb[ib];
-    }
-
-    bml_deallocate_ellblock(B);
-
-    // Reorder elements in each row - just change index
-    for (int ib = 0; ib < NB; ib++)
-    {
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+        for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            A_indexb[ROWMAJOR(ib, jp, NB, MB)] =
-                perm[A_indexb[ROWMAJOR(ib, jp, NB, MB)]];
+            A_indexb[ROWMAJOR(perm[ib], jp, NB, MB)] =
+                perm[B_indexb[ROWMAJOR(ib, jp, NB, MB)]];
+            A_ptr_value[ROWMAJOR(perm[ib], jp, NB, MB)] =
+                B_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
         }
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+        A->memory_pool_ptr[perm[ib]] = B_memory_pool_ptr[ib];
+        A->memory_pool_offsets[perm[ib]] = B_memory_pool_offsets[ib];
+#endif
     }
+
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    bml_free_memory(B_memory_pool_ptr);
+    bml_free_memory(B_memory_pool_offsets);
+#endif
+    bml_free_memory(B_indexb);
+    bml_free_memory(B_nnzb);
+    bml_free_memory(B_ptr_value);
+    bml_free_memory(B_bsize);
 }
-- 
2.43.0


From b15475ad01ebcd99d1e3245170e6556c62bbc2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 59/83] fix: eigenvectors of complex matrices are those of the
 matrix, not of its conjugate

---
 src/C-interface/dense/bml_diagonalize_dense.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..80112f2 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -748,6 +748,7 @@ bml_diagonalize_dense_single_complex(
                  rwork, &lrwork, iwork, &liwork, &info);
     }
 #endif
+    // LAPACK works with the transpose, that is the complex conjugate
     A_matrix = (float complex *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
     {
@@ -755,7 +756,7 @@ bml_diagonalize_dense_single_complex(
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -858,6 +859,7 @@ bml_diagonalize_dense_double_complex(
                  rwork, &lrwork, iwork, &liwork, &info);
     }
 #endif
+    // LAPACK works with the transpose, that is the complex conjugate
     A_matrix = (double complex *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
     {
@@ -865,7 +867,7 @@ bml_diagonalize_dense_double_complex(
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From b679d3eadd45cc4d2ecb7e73e0e4daa8906b0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 60/83] fix: the internal gemm honours the leading dimensions

---
 src/internal-blas/bml_gemm.c | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index 2fd247a..ba929d4 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -104,7 +104,7 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] = 0;
+                    c[COLMAJOR(i, j, *ldc, *n)] = 0;
                 }
             }
         }
@@ -114,8 +114,8 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] =
-                        *beta * c[COLMAJOR(i, j, *m, *n)];
+                    c[COLMAJOR(i, j, *ldc, *n)] =
+                        *beta * c[COLMAJOR(i, j, *ldc, *n)];
                 }
             }
         }
@@ -135,24 +135,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *k, *n)];
+                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *ldb, *n)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -170,17 +170,17 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(l, j, *k, *n)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
@@ -199,24 +199,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *n, *k)];
+                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -234,18 +234,18 @@ void TYPED_FUNC(
                     for (int l = 0; l < *k; l++)
                     {
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(j, l, *n, *k)];
+                            a[COLMAJOR(l, i, *lda, *m)] *
+                            b[COLMAJOR(j, l, *ldb, *k)];
                     }
 
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
-- 
2.43.0


From b2b9146120a7cf44b23e1f5c7239842570ab33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 61/83] fix: the internal gemm conjugates for transpose option
 'C'

---
 src/internal-blas/bml_gemm.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index ba929d4..6c1c140 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -28,6 +28,8 @@ void TYPED_FUNC(
     int N_rows_A;
     int N_rows_B;
     int N_cols_A;
+    int conja = *transa == 'C';
+    int conjb = *transb == 'C';
 
     if (*transa == 'N')
     {
@@ -169,8 +171,9 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
+                        REAL_T a_li = a[COLMAJOR(l, i, *lda, *m)];
                         temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
+                            (conja ? COMPLEX_CONJUGATE(a_li) : a_li) *
                             b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
@@ -212,7 +215,9 @@ void TYPED_FUNC(
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T b_jl = b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T temp =
+                        *alpha * (conjb ? COMPLEX_CONJUGATE(b_jl) : b_jl);
                     for (int i = 0; i < *m; i++)
                     {
                         c[COLMAJOR(i, j, *ldc, *n)] +=
@@ -233,9 +238,11 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
+                        REAL_T a_li = a[COLMAJOR(l, i, *lda, *m)];
+                        REAL_T b_jl = b[COLMAJOR(j, l, *ldb, *k)];
                         temp +=
-                            a[COLMAJOR(l, i, *lda, *m)] *
-                            b[COLMAJOR(j, l, *ldb, *k)];
+                            (conja ? COMPLEX_CONJUGATE(a_li) : a_li) *
+                            (conjb ? COMPLEX_CONJUGATE(b_jl) : b_jl);
                     }
 
                     if (*beta == 0)
-- 
2.43.0


From 15b3eb00fcc185ea98cf5e66f029f971025b1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 62/83] fix: bml_copy into an ellpack matrix with a larger row
 capacity keeps the rows apart

---
 src/C-interface/ellpack/bml_copy_ellpack_typed.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 2c378ec..3b2dd32 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -92,6 +92,7 @@ void TYPED_FUNC(
 
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
 
     int *A_index = A->index;
     int *A_nnz = A->nnz;
@@ -132,10 +133,10 @@ void TYPED_FUNC(
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
-        memcpy(&B_index[ROWMAJOR(i, 0, N, M)], &A_index[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(int));
-        memcpy(&B_value[ROWMAJOR(i, 0, N, M)], &A_value[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(REAL_T));
+        memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
+               &A_index[ROWMAJOR(i, 0, N, M)], M * sizeof(int));
+        memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
+               &A_value[ROWMAJOR(i, 0, N, M)], M * sizeof(REAL_T));
         //      A_nnz[perm[i]] = B_nnz[i];
     }
 #endif
-- 
2.43.0


From 0917efc1a07e07d81f436fe6b17d8261ea07da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 63/83] fix: bml_get_element of a dense matrix refuses indices
 outside of the matrix

---
 src/C-interface/dense/bml_getters_dense_typed.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/C-interface/dense/bml_getters_dense_typed.c b/src/C-interface/dense/bml_getters_dense_typed.c
index fbff45b..80da8dd 100644
--- a/src/C-interface/dense/bml_getters_dense_typed.c
+++ b/src/C-interface/dense/bml_getters_dense_typed.c
@@ -29,6 +29,16 @@ void *TYPED_FUNC(
         LOG_ERROR("A is not initialized\n");
     }
 
+    if (i < 0 || i >= N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+
+    if (j < 0 || j >= N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
+
 #ifdef BML_USE_MAGMA
     static REAL_T value = 0.;
     MAGMA_T tmp;
-- 
2.43.0


From 6ee3179180a61776082cd9517160a7ba47fa4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:51 +0000
Subject: [PATCH 64/83] fix: bml_copy into an ellpack matrix with too small a
 row capacity stops instead of writing past the row

---
 src/C-interface/ellpack/bml_copy_ellpack_typed.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 3b2dd32..a4c3cec 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
 #include "bml_copy_ellpack.h"
@@ -133,10 +134,14 @@ void TYPED_FUNC(
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
+        if (A_nnz[i] > B_M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
-               &A_index[ROWMAJOR(i, 0, N, M)], M * sizeof(int));
+               &A_index[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(int));
         memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
-               &A_value[ROWMAJOR(i, 0, N, M)], M * sizeof(REAL_T));
+               &A_value[ROWMAJOR(i, 0, N, M)], A_nnz[i] * sizeof(REAL_T));
         //      A_nnz[perm[i]] = B_nnz[i];
     }
 #endif
-- 
2.43.0


From 29e276eac09c34f09827d18358a74e9fae99f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:42 +0000
Subject: [PATCH 65/83] fix: a distributed matrix imported from a dense one
 knows its precision

bml_import_from_dense_distributed2d left matrix_precision unset, so that
bml_get_row, bml_multiply, bml_set_row, bml_set_diagonal and the file
routines ended the program with an unknown precision.
---
 src/C-interface/distributed2d/bml_import_distributed2d_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..b36f691 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
-- 
2.43.0


From bb1ad47e80b456d23c2358d8a5d7b78c13f20842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:42 +0000
Subject: [PATCH 66/83] fix: adding the identity to a distributed matrix
 touches the diagonal tiles only

---
 src/C-interface/distributed2d/bml_add_distributed2d.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..b76c3fa 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -75,7 +75,9 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_add_identity(A->matrix, beta, threshold);
+    // only the diagonal tiles hold diagonal elements
+    if (A->myprow == A->mypcol)
+        bml_add_identity(A->matrix, beta, threshold);
 }
 
 /** Matrix addition.
@@ -95,5 +97,7 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
-    bml_scale_add_identity(A->matrix, alpha, beta, threshold);
+    // only the diagonal tiles hold diagonal elements
+    bml_scale_add_identity(A->matrix, alpha,
+                           A->myprow == A->mypcol ? beta : 0., threshold);
 }
-- 
2.43.0


From b9d941ac2e2d7af6653bd7173494ac2168c43f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 67/83] fix: column-major import and export of distributed
 matrices place the off-diagonal blocks correctly

---
 .../distributed2d/bml_export_distributed2d_typed.c           | 5 ++++-
 .../distributed2d/bml_import_distributed2d_typed.c           | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..462bd98 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,11 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
+            // offset of block (ip, jp) in the dense array
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
             C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+                           A_dense + offset, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index b36f691..6b44352 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -71,7 +71,10 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
+            // offset of block (ip, jp) in the dense array
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, array + offset, &N,
                            sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
-- 
2.43.0


From ed57769cb6972fea0ba7b6e4100b1960e0650890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 68/83] fix: bml_get_row of a distributed matrix puts the
 pieces of all process columns in order

---
 src/C-interface/distributed2d/bml_getters_distributed2d_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..ae21a37 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -37,7 +37,7 @@ void *TYPED_FUNC(
 
     int *displs = calloc(A->ntasks, sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
     MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
                    A->comm);
-- 
2.43.0


From 3bc3f21f75134c644eed0b23d5c5fb8221174ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 69/83] fix: distributed matrices release what get_row, export,
 convert, read and write allocate

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 ++
 .../distributed2d/bml_export_distributed2d_typed.c        | 1 +
 .../distributed2d/bml_getters_distributed2d_typed.c       | 2 ++
 .../distributed2d/bml_utilities_distributed2d.c           | 8 ++++++--
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..9bab299 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
@@ -22,6 +23,7 @@ bml_convert_distributed2d(
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
     int m = bml_get_M(matrix);
+    bml_deallocate(&B->matrix);
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
 
diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 462bd98..8025a45 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -80,6 +80,7 @@ void *TYPED_FUNC(
         bml_free_memory(request);
         bml_free_memory(recvbuf);
     }
+    bml_free_memory(sendbuf);
 
     return A_dense;
 }
diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index ae21a37..930bd23 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -50,6 +50,8 @@ void *TYPED_FUNC(
     free(recvcounts);
     free(counts);
     free(displs);
+    if (sub_row != NULL)
+        bml_free_memory(sub_row);
 
     return row;
 }
diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..94180ea 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -22,7 +22,7 @@ bml_read_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
     bml_matrix_t *B;
     switch (bml_get_type(A->matrix))
@@ -63,6 +63,8 @@ bml_read_bml_matrix_distributed2d(
 
     bml_deallocate(&B);
     bml_deallocate(&C);
+    if (bsizes != NULL)
+        bml_free_memory(bsizes);
 }
 
 void
@@ -73,7 +75,7 @@ bml_write_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
 
     // task 0 collects all blocks and write matrix
@@ -127,6 +129,8 @@ bml_write_bml_matrix_distributed2d(
         // print "big" matrix containing all the distributed submatrices
         bml_write_bml_matrix(B, filename);
         bml_deallocate(&B);
+        if (bsizes != NULL)
+            bml_free_memory(bsizes);
     }
     else
     {
-- 
2.43.0


From b270983e06eedbb16e8a2d635bfd0bf16e2232e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 70/83] fix: broadcasting a csr matrix without non-zero entries
 is allowed

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..0a8256f 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -206,7 +206,7 @@ void TYPED_FUNC(
             totnnz += A->data_[i]->NNZ_;
         }
     MPI_Bcast(&totnnz, 1, MPI_INT, root, comm);
-    assert(totnnz > 0);
+    assert(totnnz >= 0);
 
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
-- 
2.43.0


From ac65e2aabbd2dbc2fe80fd4adad4f207bba3ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 71/83] fix: receiving a csr matrix grows the rows that are too
 short

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 24 ++++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 0a8256f..a9454fb 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -89,38 +89,32 @@ void TYPED_FUNC(
         LOG_ERROR("MPI_Recv failed for nnz");
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
-    {
-        A->data_[i]->NNZ_ = nnz[i];
         totnnz += nnz[i];
-    }
-    bml_free_memory(nnz);
 
     // recv columns indexes
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     mpiret = MPI_Recv(cols, totnnz, MPI_INT, src, 112, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for cols");
-    int *pcols = cols;
-    for (int i = 0; i < A->N_; i++)
-    {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->cols_, pcols, row->NNZ_ * sizeof(int));
-        pcols += row->NNZ_;
-    }
-    bml_free_memory(cols);
 
     // recv matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Recv(values, totnnz, MPI_T, src, 113, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for values");
+
+    // assign received data (rows grow as needed)
+    int *pcols = cols;
     REAL_T *pvalues = values;
     for (int i = 0; i < A->N_; i++)
     {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->vals_, pvalues, row->NNZ_ * sizeof(REAL_T));
-        pvalues += row->NNZ_;
+        TYPED_FUNC(csr_set_sparse_row) (A->data_[i], nnz[i], pcols, pvalues,
+                                        0.);
+        pcols += nnz[i];
+        pvalues += nnz[i];
     }
+    bml_free_memory(nnz);
+    bml_free_memory(cols);
     bml_free_memory(values);
 }
 
-- 
2.43.0


From 7257165daf87d78fd1fae08f4dafd82518aa3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 72/83] fix: broadcast of csr and ellblock matrices uses the
 rank in the given communicator

---
 src/C-interface/csr/bml_parallel_csr_typed.c          | 11 +++++++----
 .../ellblock/bml_parallel_ellblock_typed.c            |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index a9454fb..ac9871a 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -193,8 +193,11 @@ void TYPED_FUNC(
 {
     assert(A->N_ > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int totnnz = 0;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             totnnz += A->data_[i]->NNZ_;
@@ -205,7 +208,7 @@ void TYPED_FUNC(
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     int *pcols = cols;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -216,7 +219,7 @@ void TYPED_FUNC(
 
     // bcast nnz
     int *nnz = bml_allocate_memory(sizeof(int) * A->N_);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -227,7 +230,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     REAL_T *pvalues = values;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..6b6e868 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -165,11 +165,14 @@ void TYPED_FUNC(
     assert(A->MB > 0);
 
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    if (bml_getMyRank() == root)
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
+    if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
     MPI_Bcast(nnzb, A->NB, MPI_INT, root, comm);
@@ -178,7 +181,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
     {
         REAL_T *pvalues = values;
         for (int ib = 0; ib < A->NB; ib++)
-- 
2.43.0


From d8a7852df618c07e43012fb53bf97a0b56e978b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 73/83] fix: receiving into an ellblock matrix releases the
 blocks that are replaced

---
 .../ellblock/bml_parallel_ellblock_typed.c            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 6b6e868..3f98453 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -74,6 +74,9 @@ void TYPED_FUNC(
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
     MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
 
+    // release the blocks that are replaced
+    bml_clear_ellblock(A);
+
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
     memcpy(A->indexb, indexb, A->NB * A->MB * sizeof(int));
@@ -105,6 +108,8 @@ void TYPED_FUNC(
     const int src,
     MPI_Comm comm)
 {
+    // release the blocks that are replaced
+    bml_clear_ellblock(A);
 
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
@@ -164,14 +169,14 @@ void TYPED_FUNC(
     assert(A->NB > 0);
     assert(A->MB > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
     if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    int myrank;
-    MPI_Comm_rank(comm, &myrank);
-
     if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
-- 
2.43.0


From 6b777cc2c8affd47b5447d4b10ae9d8ce7687e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 74/83] fix: bml_allGatherVParallel exchanges values of the
 matrix precision

---
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From ad0736cc76d37cc72be184b700d345bb3169700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 75/83] fix: bml_add of dense matrices with divided rows starts
 at the first local row

---
 src/C-interface/dense/bml_add_dense_typed.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 28c5c21..b2b8db6 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,9 +134,11 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
-    C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
-    C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
-                  A->matrix + startIndex, &inc);
+    REAL_T *A_start = (REAL_T *) A->matrix + startIndex;
+    REAL_T *B_start = (REAL_T *) B->matrix + startIndex;
+
+    C_BLAS(SCAL) (&nElems, &alpha_, A_start, &inc);
+    C_BLAS(AXPY) (&nElems, &beta_, B_start, &inc, A_start, &inc);
 #endif
 #endif
 }
-- 
2.43.0


From a5a784c4fd479c9f5013e27826b1981a407f0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:17 +0000
Subject: [PATCH 76/83] fix: converting a distributed matrix uses the requested
 row capacity

The allocated row size of a csr block can exceed its dimension, which no
other format accepts.
---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 9bab299..b895dbb 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -22,7 +22,7 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
-    int m = bml_get_M(matrix);
+    int m = M / B->npcols;
     bml_deallocate(&B->matrix);
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, m, sequential);
-- 
2.43.0


From f9ae2f4aa6a8ae878240e72888e83a296f2f899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:34 +0000
Subject: [PATCH 77/83] fix: report failed aligned allocations instead of using
 an uninitialised pointer

---
 src/C-interface/bml_allocate.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 736329d..3a98fa1 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -54,8 +54,11 @@ bml_allocate_memory(
         ptr[i] = 0;
     }
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    char *ptr;
-    posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    char *ptr = NULL;
+    if (posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size) != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu\n", size);
+    }
 #pragma omp simd
     for (size_t i = 0; i < size; i++)
     {
@@ -87,8 +90,11 @@ bml_noinit_allocate_memory(
 #if defined(INTEL_OPT)
     void *ptr = _mm_malloc(size, MALLOC_ALIGNMENT);
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    void *ptr;
-    posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    void *ptr = NULL;
+    if (posix_memalign(&ptr, MALLOC_ALIGNMENT, size) != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu\n", size);
+    }
 #else
     void *ptr = malloc(size);
 #endif
-- 
2.43.0


From b8a8c36702331c1888411ff832eaa3b88ed3f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 78/83] fix: leave room for the diagonal in the row buffers of
 ellpack add_identity

---
 src/C-interface/ellpack/bml_add_ellpack_typed.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 4e4209f..288024f 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -448,11 +448,12 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    // a row plus the diagonal element it may not store yet
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -509,8 +510,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
-- 
2.43.0


From 482c5475866762a80d81052f238e3d40c7b59923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 79/83] fix: size the message buffers of ellblock matrices by
 their stored blocks

---
 .../ellblock/bml_parallel_ellblock_typed.c    | 50 ++++++++++++++++---
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 3f98453..84a301a 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -19,6 +19,28 @@
 #endif
 
 #ifdef BML_USE_MPI
+/** Number of elements in the stored blocks.
+ *
+ *  A row holds up to MB blocks, which can be more than M elements.
+ */
+static int TYPED_FUNC(
+    count_elements_ellblock) (
+    bml_matrix_ellblock_t * A,
+    const int *nnzb,
+    const int *indexb)
+{
+    int count = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+    {
+        for (int jp = 0; jp < nnzb[ib]; jp++)
+        {
+            int jb = indexb[ROWMAJOR(ib, jp, A->NB, A->MB)];
+            count += A->bsize[ib] * A->bsize[jb];
+        }
+    }
+    return count;
+}
+
 void TYPED_FUNC(
     bml_mpi_send_ellblock) (
     bml_matrix_ellblock_t * A,
@@ -36,7 +58,9 @@ void TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int nvalues =
+        TYPED_FUNC(count_elements_ellblock) (A, A->nnzb, A->indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
     REAL_T *pvalues = values;
     for (int ib = 0; ib < A->NB; ib++)
     {
@@ -49,7 +73,7 @@ void TYPED_FUNC(
             pvalues += nelements;
         }
     }
-    MPI_Send(values, A->N * A->M, MPI_T, dst, 111, comm);
+    MPI_Send(values, nvalues, MPI_T, dst, 111, comm);
 
     bml_free_memory(nnzb);
     bml_free_memory(indexb);
@@ -71,8 +95,9 @@ void TYPED_FUNC(
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
     MPI_Recv(nnzb, A->NB, MPI_INT, src, 113, comm, &status);
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
+    int nvalues = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
+    MPI_Recv(values, nvalues, MPI_T, src, 111, comm, &status);
 
     // release the blocks that are replaced
     bml_clear_ellblock(A);
@@ -115,8 +140,16 @@ void TYPED_FUNC(
 
     MPI_Irecv(A->nnzb, A->NB, MPI_INT, src, 113, comm, A->req + 1);
 
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Irecv(A->buffer, A->N * A->M, MPI_T, src, 111, comm, A->req + 2);
+    // the number of elements is not known yet: leave room for full rows
+    int maxb = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        if (A->bsize[ib] > maxb)
+            maxb = A->bsize[ib];
+    int ncols = A->MB * maxb;
+    if (ncols > A->N)
+        ncols = A->N;
+    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * ncols);
+    MPI_Irecv(A->buffer, A->N * ncols, MPI_T, src, 111, comm, A->req + 2);
 }
 
 void TYPED_FUNC(
@@ -185,7 +218,8 @@ void TYPED_FUNC(
 
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int nvalues = TYPED_FUNC(count_elements_ellblock) (A, nnzb, indexb);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * nvalues);
     if (myrank == root)
     {
         REAL_T *pvalues = values;
@@ -201,7 +235,7 @@ void TYPED_FUNC(
             }
         }
     }
-    MPI_Bcast(values, A->N * A->M, MPI_T, root, comm);
+    MPI_Bcast(values, nvalues, MPI_T, root, comm);
 
     bml_clear_ellblock(A);
 
-- 
2.43.0


From 5c55e2d5cbe5af135b15d3833911bb138154b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:07 +0000
Subject: [PATCH 80/83] fix: distributed2d matrices share the row and column
 communicators

---
 .../distributed2d/bml_allocate_distributed2d.c    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..403c7aa 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -10,8 +10,10 @@
 #include <assert.h>
 #include <math.h>
 
-/* MPI communicator for all the distributed2d matrices */
+/* MPI communicators for all the distributed2d matrices */
 static MPI_Comm s_comm = MPI_COMM_NULL;
+static MPI_Comm s_row_comm = MPI_COMM_NULL;
+static MPI_Comm s_col_comm = MPI_COMM_NULL;
 
 void
 bml_setcomm_distributed2d(
@@ -34,6 +36,13 @@ bml_setcomm_distributed2d(
     int reorder = 0;
     MPI_Cart_create(comm, 2, dims, periods, reorder, &s_comm);
 
+    // communicators for the rows and columns of the process grid
+    int coords[2];
+    MPI_Comm_rank(s_comm, &mytask);
+    MPI_Cart_coords(s_comm, mytask, 2, coords);
+    MPI_Comm_split(s_comm, coords[0], coords[1], &s_row_comm);
+    MPI_Comm_split(s_comm, coords[1], coords[0], &s_col_comm);
+
     // use seed based on task ID
     srand(13 * mytask + 17);
 }
@@ -68,8 +77,8 @@ bml_setup_distributed2d(
     A->n = N / p;
     A->matrix_type = distributed2d;
 
-    MPI_Comm_split(A->comm, A->myprow, A->mypcol, &A->row_comm);
-    MPI_Comm_split(A->comm, A->mypcol, A->myprow, &A->col_comm);
+    A->row_comm = s_row_comm;
+    A->col_comm = s_col_comm;
 
     assert(A->n * p == N);
 }
-- 
2.43.0


From 6aab429417007d79c14d74a686d1bb6ad402514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:05 +0000
Subject: [PATCH 81/83] fix: ellblock operations check that a row has room for
 another block

Adding, importing, reading, setting rows or diagonals and transposing
wrote past the end of a block row when the matrix holds fewer blocks per
row than it has block columns. The in-place transpose moves blocks to
rows that may still be full, so such matrices are transposed through a
second matrix.
---
 .../ellblock/bml_add_ellblock_typed.c           |  9 +++++++++
 .../ellblock/bml_import_ellblock_typed.c        |  4 ++++
 .../ellblock/bml_setters_ellblock_typed.c       |  8 ++++++++
 .../ellblock/bml_transpose_ellblock_typed.c     | 17 +++++++++++++++++
 .../ellblock/bml_utilities_ellblock_typed.c     | 10 ++++++++--
 5 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index d7487af..ae2e694 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -175,6 +176,10 @@ void TYPED_FUNC(
             int nelements = bsize[ib] * bsize[jb];
             if (is_above_threshold(normx, threshold))
             {
+                if (ll == MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
                 A_ptr_value[kb] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
@@ -328,6 +333,10 @@ double TYPED_FUNC(
             trnorm += normy;
             if (is_above_threshold(normx, threshold))
             {
+                if (ll == MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int kb = ROWMAJOR(ib, ll, NB, MB);
                 A_ptr_value[kb] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..c437296 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -84,6 +84,10 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] == MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index f0de4ac..c9f0547 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -180,6 +180,10 @@ void TYPED_FUNC(
             }
             if (block_found == 0 && above_threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -263,6 +267,10 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index 44193b3..ee59dcd 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -1,10 +1,12 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_copy_ellblock.h"
 #include "bml_transpose_ellblock.h"
 #include "bml_types_ellblock.h"
 
@@ -52,6 +54,10 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] == MB)
+            {
+                LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
@@ -119,6 +125,17 @@ void TYPED_FUNC(
     int NB = A->NB;
     int MB = A->MB;
 
+    /* rows that cannot hold all the blocks may have no room for the blocks
+     * moved there before their own blocks are moved */
+    if (MB < NB)
+    {
+        bml_matrix_ellblock_t *B =
+            TYPED_FUNC(bml_transpose_new_ellblock) (A);
+        TYPED_FUNC(bml_copy_ellblock) (B, A);
+        bml_deallocate_ellblock(B);
+        return;
+    }
+
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index eab840d..8c3ba2d 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -135,7 +135,10 @@ void TYPED_FUNC(
         if (found_block == 0)
         {
             //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
+            if (A_nnzb[ib] == MB)
+            {
+                LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
             A_indexb[ind] = jb;
             A_nnzb[ib]++;
@@ -167,7 +170,10 @@ void TYPED_FUNC(
             //add block if needed
             if (found_block == 0)
             {
-                assert(A_nnzb[jb] < MB);
+                if (A_nnzb[jb] == MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
                 A_indexb[ind] = ib;
                 A_nnzb[jb]++;
-- 
2.43.0


From 41c37b9d48046cb3aeaacc1bb2061f3244cae3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:05 +0000
Subject: [PATCH 82/83] fix: ellblock operations on matrices with different
 numbers of blocks per row

Add, add_norm, sum_AB, sum_squares2, fnorm2, scale, multiply_x2 and
multiply_adjust_AB indexed all their matrices with the row capacity of
the first one.
---
 src/C-interface/ellblock/bml_add_ellblock_typed.c |  6 ++++--
 .../ellblock/bml_multiply_ellblock_typed.c        | 14 ++++++++------
 .../ellblock/bml_norm_ellblock_typed.c            | 15 +++++++++------
 .../ellblock/bml_scale_ellblock_typed.c           |  4 ++--
 4 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index ae2e694..49179bb 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -46,6 +46,7 @@ void TYPED_FUNC(
 
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
@@ -141,7 +142,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -222,6 +223,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int ix[NB], jx[NB];
 
@@ -292,7 +294,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             if (ix[jb] == 0)
             {
diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 1d0b38f..2db9160 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -279,6 +279,7 @@ void *TYPED_FUNC(
 {
     int NB = X->NB;
     int MB = X->MB;
+    int X2_MB = X2->MB;
     int *X_indexb = X->indexb;
     int *X_nnzb = X->nnzb;
     int *bsize = X->bsize;
@@ -420,7 +421,7 @@ void *TYPED_FUNC(
         }
 
         // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
+        if (lb > X2_MB)
         {
             LOG_ERROR
                 ("Number of non-zeroes blocks per row > MB, Increase MB\n");
@@ -429,7 +430,7 @@ void *TYPED_FUNC(
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
+            assert(ll < X2_MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -443,8 +444,8 @@ void *TYPED_FUNC(
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2_MB);
+                assert(ind < NB * X2_MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
@@ -673,6 +674,7 @@ void TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
     int *bsize = A->bsize;
@@ -717,7 +719,7 @@ void TYPED_FUNC(
 
                 for (int kp = 0; kp < B_nnzb[jb]; kp++)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
+                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, B_MB)];
                     if (ix[kb] == 0)
                     {
                         memset(x_ptr[kb], 0, maxbsize2);
@@ -726,7 +728,7 @@ void TYPED_FUNC(
                         l++;
                     }
                     // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
+                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, B_MB)];
                     REAL_T *x = x_ptr[kb];
                     for (int ii = 0; ii < bsize[ib]; ii++)
                         for (int jj = 0; jj < bsize[jb]; jj++)
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 6954560..093013a 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -76,6 +76,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -125,7 +126,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             if (ix[jb] != 0)
             {
@@ -184,6 +185,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -236,7 +238,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
             if (ix[jb] == 0)
@@ -312,6 +314,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
     double fnorm = 0.0;
     REAL_T *rvalue;
 
@@ -341,9 +344,9 @@ double TYPED_FUNC(
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, kp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, kp, NB, B_MB)])
                 {
-                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
+                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, B_MB)];
                     break;
                 }
             }
@@ -365,7 +368,7 @@ double TYPED_FUNC(
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, jp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, jp, NB, B_MB)])
                 {
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
@@ -374,7 +377,7 @@ double TYPED_FUNC(
 
             if (rvalue == NULL)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
                 int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
diff --git a/src/C-interface/ellblock/bml_scale_ellblock_typed.c b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
index 208baba..0a6e94d 100644
--- a/src/C-interface/ellblock/bml_scale_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_scale_ellblock_typed.c
@@ -67,8 +67,8 @@ void TYPED_FUNC(
     {
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
-            int jb = A->indexb[ind];
+            int ind = ROWMAJOR(ib, jp, B->NB, B->MB);
+            int jb = B->indexb[ind];
             int nElems = A->bsize[ib] * A->bsize[jb];
             REAL_T *B_value = B_ptr_value[ind];
             assert(B_value != NULL);
-- 
2.43.0


From 7b8901155937deb79bf729417ae94fcbe8155318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:19 +0000
Subject: [PATCH 83/83] fix: ellblock memory pool keeps each block in the space
 of its row

Freeing a block now returns its space to the row and clears the entry at
the end of that row, the pool has room for all the blocks a row can hold,
and transposing allocates the blocks in the row that holds them instead
of moving them between rows.
---
 .../ellblock/bml_allocate_ellblock_typed.c        | 15 ++++++++-------
 .../ellblock/bml_transpose_ellblock_typed.c       |  9 +++++++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 1bf407f..2fe185f 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -59,10 +59,9 @@ void TYPED_FUNC(
         {
             shift = A->bsize[ib] * A->bsize[jb];
             //printf("Remove block %d %d %d\n", ib, jb, shift);
-            // simply set pointer to NULL if last allocated block in row
+            // nothing to shift if last allocated block in row
             if (jp == A->nnzb[ib] - 1)
             {
-                A->ptr_value[ind] = NULL;
                 break;
             }
             // save pointers to beginning and end of memory
@@ -82,12 +81,16 @@ void TYPED_FUNC(
                 A->indexb[ind - 1] = A->indexb[ind];
                 A->ptr_value[ind - 1] = (REAL_T *) A->ptr_value[ind] - shift;
             }
-            A->ptr_value[A->nnzb[ib] - 1] = NULL;
             break;
         }
     }
     // make sure we found block to deallocate
     assert(shift > 0);
+    int last = ROWMAJOR(ib, A->nnzb[ib] - 1, A->NB, A->MB);
+    A->ptr_value[last] = NULL;
+    A->indexb[last] = -1;
+    // the space at the end of the row is free again
+    A->memory_pool_ptr[ib] = (REAL_T *) A->memory_pool_ptr[ib] - shift;
 
     // move data in memory to reflect shift in pointers
     if (nelements > 0)
@@ -226,13 +229,11 @@ bml_matrix_ellblock_t *TYPED_FUNC(
     A->nnzb = bml_allocate_memory(sizeof(int) * NB);
 
     // allocate memory for matrix elements
-    // we make sure we have enough memory for at least 3 blocks/row
+    // we make sure we have enough memory for MB blocks/row
     int maxbsize = 0;
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
-    int ncols_storage = M;
-    if (ncols_storage < 3 * maxbsize)
-        ncols_storage = 3 * maxbsize;
+    int ncols_storage = MIN(N, MB * maxbsize);
 #ifdef BML_ELLBLOCK_USE_MEMPOOL
     A->memory_pool =
         (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * N * ncols_storage);
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index ee59dcd..e5b9305 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -63,7 +63,7 @@ bml_matrix_ellblock_t
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -127,7 +127,12 @@ void TYPED_FUNC(
 
     /* rows that cannot hold all the blocks may have no room for the blocks
      * moved there before their own blocks are moved */
-    if (MB < NB)
+    int move_blocks = (MB == NB);
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    /* the blocks of a row have to stay in the part of the pool of that row */
+    move_blocks = 0;
+#endif
+    if (!move_blocks)
     {
         bml_matrix_ellblock_t *B =
             TYPED_FUNC(bml_transpose_new_ellblock) (A);
-- 
2.43.0

