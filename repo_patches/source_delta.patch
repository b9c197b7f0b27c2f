From bd8c71f939f7279d8f2499475913ead8be2b7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 001/245] fix: gemv with ARMAS_ABS started at the second result
 element and used the column count as length

---
 src/blas/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..da01ee8 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -79,7 +79,7 @@ void gemv_unb_abs(
 
     // Non-Transposed A here
 
-    y = &Y->elems[yinc];
+    y = &Y->elems[0];
     for (j = 0; j < A->cols-3; j += 4) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
@@ -104,7 +104,7 @@ void gemv_unb_abs(
     if (j < A->cols) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
-        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->cols);
+        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->rows);
     }
 }
 
-- 
2.43.0


From ee78777de08a30febb6261b3a464e6889c834c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 002/245] fix: ARMAS_ABSA or ARMAS_ABSB alone made matrix
 product use absolute values of both operands

---
 src/blas/kernel.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/blas/kernel.c b/src/blas/kernel.c
index 4cead8f..c3ea2a6 100644
--- a/src/blas/kernel.c
+++ b/src/blas/kernel.c
@@ -101,10 +101,10 @@ int armas_mult_kernel(
             armas_make(&Bcpy, nP, nJ, cache->ab_step, cache->Bcpy);
             if (flags & (ARMAS_TRANSB|ARMAS_CTRANSB)) {
                 armas_submatrix_unsafe(&Bc, B, jp, kp, nJ, nP);
-                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags);
+                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags & ~ARMAS_ABSA);
             } else {
                 armas_submatrix_unsafe(&Bc, B, kp, jp, nP, nJ);
-                CPBLK(&Bcpy, &Bc, nP, nJ, flags);
+                CPBLK(&Bcpy, &Bc, nP, nJ, flags & ~ARMAS_ABSA);
             }
 
             for (ip = 0; ip < C->rows; ip += cache->MB) {
@@ -112,10 +112,10 @@ int armas_mult_kernel(
                 armas_make(&Acpy, nP, nI, cache->ab_step, cache->Acpy);
                 if (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) {
                     armas_submatrix_unsafe(&Ac, A, kp, ip, nP, nI);
-                    CPBLK(&Acpy, &Ac, nP, nI, flags);
+                    CPBLK(&Acpy, &Ac, nP, nI, flags & ~ARMAS_ABSB);
                 } else {
                     armas_submatrix_unsafe(&Ac, A, ip, kp, nI, nP);
-                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags);
+                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags & ~ARMAS_ABSB);
                 }
 
                 armas_submatrix_unsafe(&Ca, C, ip, jp, nI, nJ);
@@ -157,10 +157,10 @@ int armas_mult_kernel_nc(
             armas_make(&Bcpy, nP, nJ, cache->ab_step, cache->Bcpy);
             if (flags & (ARMAS_TRANSB|ARMAS_CTRANSB)) {
                 armas_submatrix_unsafe(&Bc, B, jp, kp, nJ, nP);
-                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags);
+                CPBLK_TRANS(&Bcpy, &Bc, nJ, nP, flags & ~ARMAS_ABSA);
             } else {
                 armas_submatrix_unsafe(&Bc, B, kp, jp, nP, nJ);
-                CPBLK(&Bcpy, &Bc, nP, nJ, flags);
+                CPBLK(&Bcpy, &Bc, nP, nJ, flags & ~ARMAS_ABSA);
             }
 
             for (ip = 0; ip < C->rows; ip += cache->MB) {
@@ -168,10 +168,10 @@ int armas_mult_kernel_nc(
                 armas_make(&Acpy, nP, nI, cache->ab_step, cache->Acpy);
                 if (flags & (ARMAS_TRANSA|ARMAS_CTRANSA)) {
                     armas_submatrix_unsafe(&Ac, A, kp, ip, nP, nI);
-                    CPBLK(&Acpy, &Ac, nP, nI, flags);
+                    CPBLK(&Acpy, &Ac, nP, nI, flags & ~ARMAS_ABSB);
                 } else {
                     armas_submatrix_unsafe(&Ac, A, ip, kp, nI, nP);
-                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags);
+                    CPBLK_TRANS(&Acpy, &Ac, nI, nP, flags & ~ARMAS_ABSB);
                 }
 
                 armas_submatrix_unsafe(&Ca, C, ip, jp, nI, nJ);
-- 
2.43.0


From 7957228be89d7f55fa536e70cfcf6ff8f0dffe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 003/245] fix: recursive triangular solve applied alpha to the
 already updated blocks

---
 src/blas/trsm_rec.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..87bedea 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -18,7 +18,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_solve_unb) && defined(armas_mult_kernel_nc)
+#if defined(armas_solve_unb) && defined(armas_mult_kernel)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From b7b82c7657e4e465e1fb68819b5b6092abc7e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 004/245] fix: recursive trapezoidal rank-1 update partitioned
 non-square matrix off its diagonal

---
 src/blas/updtrmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..828a0b2 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -83,15 +83,17 @@ void update_trmv_recursive(
         return;
     }
 
+    // leading block is square also for trapezoidial matrix
+    int nb = (A->rows < A->cols ? A->rows : A->cols)/2;
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, nb, nb, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, nb, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, nb, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From be4ebaf863fcaa0e3d065f317bcf118caf9f4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 005/245] fix: recursive upper triangular rank-k update wrote
 one row too many for odd sizes

---
 src/blas/updtrmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..8721fd4 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
-- 
2.43.0


From 2a997cf628c65e18344e6b078e674b63d523cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 006/245] fix: symmetric rank-2k update recursed without end
 when blocking is disabled (lb 0 or 1)

---
 src/blas/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index ffc72d1..2e1c9c0 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -101,7 +101,7 @@ void update_syr2k_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XT, XB, YT, YB;
 
-    if (A->rows < minblock) {
+    if (minblock <= 1 || A->rows < minblock) {
         update_syr2k_unb(beta, A, alpha, X, Y, flags);
         return;
     }
@@ -195,7 +195,7 @@ void update_syr2k_trans_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XL, XR, YL, YR;
 
-    if (A->rows < minblock) {
+    if (minblock <= 1 || A->rows < minblock) {
         update_syr2k_trans_unb(beta, A, alpha, X, Y, flags);
         return;
     }
-- 
2.43.0


From b181c8bbef00851f6b91ec6856c0ec042f169879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 007/245] fix: symmetric product overran cache blocks when
 configured block sizes differ

---
 src/blas/symm.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..4f899d0 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -119,7 +119,10 @@ void armas_mult_symm_left(
         flags1 |= ARMAS_TRANSB;
         flags2 |= ARMAS_TRANSB;
     }
-    mb = C->rows < mcache->MB ? C->rows : mcache->MB;
+    // diagonal block is copied to cache; must fit there also when MB > KB
+    mb = mcache->MB < mcache->KB ? mcache->MB : mcache->KB;
+    if (C->rows < mb)
+        mb = C->rows;
     nb = C->cols < mcache->NB ? C->cols : mcache->NB;
     for (i = 0; i < C->rows; i += mb) {
         nI = C->rows - i < mb ? C->rows - i : mb;
@@ -218,8 +221,14 @@ void armas_mult_symm_right(
     flags1 |= (flags & ARMAS_UPPER) != 0 ? 0 : ARMAS_TRANSB;
     flags2 |= (flags & ARMAS_UPPER) != 0 ? ARMAS_TRANSB : 0;
 
-    int mb = C->rows < mcache->MB ? C->rows : mcache->MB;
-    int nb = C->cols < mcache->NB ? C->cols : mcache->NB;
+    // diagonal block of A goes to first cache block and block of B to the second
+    // one; both must fit there also when MB != NB or NB > KB
+    int mb = mcache->MB < mcache->NB ? mcache->MB : mcache->NB;
+    int nb = mb < mcache->KB ? mb : mcache->KB;
+    if (C->rows < mb)
+        mb = C->rows;
+    if (C->cols < nb)
+        nb = C->cols;
     for (ic = 0; ic < C->cols; ic += nb) {
         nC = C->cols - ic < nb ? C->cols - ic : nb;
 
-- 
2.43.0


From 5077d802ab84348c28d024183c1211e37e521bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 008/245] fix: mscale with ARMAS_UPPER scaled wrong elements,
 ARMAS_LOWER|ARMAS_UNIT missed the last column

---
 src/blas/mscale.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..1025a5a 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -137,8 +137,9 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
+        for (c = n; c < m->cols; c++) {
+            int nr = c+1-n < m->rows ? c+1-n : m->rows;
+            armas_submatrix_unsafe(&C, m, 0, c, nr, 1);
             vec_scale(&C, alpha, C.rows);
         }
         break;
@@ -146,7 +147,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c+n < m->rows; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
-- 
2.43.0


From 85233e99654e112f9569712cdc91cbda5ff11067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 009/245] fix: madd with ARMAS_UPPER wrote past trapezoidal
 columns, ARMAS_LOWER|ARMAS_UNIT missed the last column

---
 src/blas/madd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..41437fe 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,8 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            int nr = c+1-n < A->rows ? c+1-n : A->rows;
+            armas_submatrix_unsafe(&C, A, 0, c, nr, 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
@@ -94,7 +95,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c+n < A->rows; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
-- 
2.43.0


From 769eb2d67c0dba265a936c875d1f1a400fb080d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 010/245] fix: apply, apply2 and iterate with ARMAS_UPPER ran
 past last row of wide matrices

---
 src/blas/mapply.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
-- 
2.43.0


From 0712a0b89461ada8ff55556d8582aaed8581f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 011/245] fix: make_trm with ARMAS_UPPER|ARMAS_UNIT wrote past
 last row of wide matrices

---
 src/blas/mset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..d5750ab 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if ((flags & ARMAS_UNIT) && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From e155f016ab260ddde66eda62ecb277b17f0c5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 012/245] fix: mplus ignored transpose when upper or lower part
 is selected

---
 src/blas/mplus.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/blas/mplus.c b/src/blas/mplus.c
index 1b2eac6..3a73801 100644
--- a/src/blas/mplus.c
+++ b/src/blas/mplus.c
@@ -259,6 +259,28 @@ void madd_abs(DTYPE alpha, armas_dense_t *A, DTYPE beta, const armas_dense_t *B,
 }
 
 
+// A := alpha*A + beta*B^T for the triangular or trapezoidal part of A
+static
+void madd_trm_trans(DTYPE alpha, armas_dense_t *A, DTYPE beta, const armas_dense_t *B, int flags)
+{
+    int i, j, first, last;
+    DTYPE a, b;
+
+    for (j = 0; j < A->cols; j++) {
+        first = flags & ARMAS_LOWER ? j : 0;
+        last = flags & ARMAS_LOWER || j >= A->rows ? A->rows : j + 1;
+        for (i = first; i < last; i++) {
+            a = armas_get_unsafe(A, i, j);
+            b = armas_get_unsafe(B, j, i);
+            if (flags & ARMAS_ABS) {
+                a = ABS(a);
+                b = ABS(b);
+            }
+            armas_set_unsafe(A, i, j, alpha * a + beta * b);
+        }
+    }
+}
+
 /**
  * @brief Matrix summation.
  *
@@ -315,6 +337,10 @@ int armas_mplus(
         }
     }
 
+    if ((flags & (ARMAS_TRANS|ARMAS_TRANSB)) && (flags & (ARMAS_LOWER|ARMAS_UPPER))) {
+        madd_trm_trans(alpha, A, beta, B, flags);
+        return 0;
+    }
     switch (flags & (ARMAS_LOWER|ARMAS_UPPER)) {
     case ARMAS_LOWER:
         if (flags & ARMAS_ABS) {
-- 
2.43.0


From a8115e9d8d1c6201d2673516f941ae141de0556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 013/245] fix: mscale with zero factor left NaN and Inf values
 of the operand

---
 src/blas/mscale.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index 1025a5a..792d4e2 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -34,6 +34,12 @@ void vec_scale(armas_dense_t *X,  const DTYPE alpha, int N)
     register DTYPE *x0;
     register int xinc = X->rows == 1 ? X->step : 1;
 
+    // set to zero, like for matrices (see blk_scale)
+    if (alpha == ZERO) {
+        for (i = 0; i < N; i++)
+            X->elems[i*xinc] = ZERO;
+        return;
+    }
     for (i = 0; i < N-3; i += 4) {
         X->elems[(i+0)*xinc] *= alpha;
         X->elems[(i+1)*xinc] *= alpha;
-- 
2.43.0


From 717bcddb6e3a9f0865e6058168686c19b81f15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 014/245] fix: axpby with zero beta propagated NaN and Inf
 values of the result vector

---
 src/blas/axpy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blas/axpy.c b/src/blas/axpy.c
index 10d3f28..a32b10e 100644
--- a/src/blas/axpy.c
+++ b/src/blas/axpy.c
@@ -39,6 +39,12 @@ void armas_axpby_unsafe(
     int yinc = y->rows == 1 ? y->step : 1;
     int xinc = x->rows == 1 ? x->step : 1;
 
+    // previous value of y is not used (may be uninitialized workspace)
+    if (beta == ZERO) {
+        for (i = 0; i < N; i++)
+            y->elems[i*yinc] = alpha*x->elems[i*xinc];
+        return;
+    }
     for (i = 0; i < N-3; i += 4) {
         y0 = y->elems[(i+0)*yinc] * beta;
         y1 = y->elems[(i+1)*yinc] * beta;
-- 
2.43.0


From 64014068389a935c3a487eabc9a72a3077a1a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 015/245] fix: lqsolve required workspace larger than its own
 size query returned

---
 src/lapack/lqsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..8fca073 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -136,7 +136,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return -ARMAS_ESIZE;
     }
 
-    wsmin = B->rows * sizeof(DTYPE);
+    wsmin = B->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 09dd0e862f06f961137a37043cceab4f8b16423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 016/245] fix: lqbuild and rqbuild selected blocked code from
 column count and overran workspace of wide matrices

---
 src/lapack/lqbld.c | 2 +-
 src/lapack/rqbld.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index ca3e307..2c90068 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -302,7 +302,7 @@ int armas_lqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3f07516..3b83b90 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -290,7 +290,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         // start row: A->rows - K, column: A.cols - K
         unblk_rqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
-- 
2.43.0


From b78233f19a5e422c9b15524b6eace88bbbda308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 017/245] fix: cache block sizes were zero or overran the
 buffer for extreme block ratios and small buffers

---
 src/base/cache.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..02e9996 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -198,7 +198,8 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -213,6 +214,12 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        if (kn < clp || nn < 4 || mn < 4) {
+            // buffer too small for requested ratios; divide evenly
+            kn = (size_t)sqrt(S/2.0);
+            kn -= kn % clp;
+            nn = mn = kn & ~0x3;
+        }
     }
     *mb = mn;
     *nb = nn;
@@ -230,7 +237,7 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len || mb < 4 || nb < 4) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -315,13 +322,16 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
-        // require mn <= kn ==> a <= b
+        // require mn <= kn ==> a <= b and nn <= kn ==> 1 <= b
         if (b < a)
             b = a;
+        if (b < 1.0)
+            b = 1.0;
 
         kn = (size_t)sqrt(b*S/(2.0+a));
 
@@ -334,6 +344,12 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        if (kn < clp || nn < 4 || mn < 4) {
+            // buffer too small for requested ratios; divide evenly
+            kn = (size_t)sqrt(S/3.0);
+            kn -= kn % clp;
+            nn = mn = kn & ~0x3;
+        }
     }
     *mb = mn;
     *nb = nn;
@@ -356,7 +372,7 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len || mb < 4 || nb < 4) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -365,6 +381,11 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    // result block is stored with row stride of kb
+    if (mb > (kb > (CACHELINE/p) ? kb : (CACHELINE/p)))
+        return -1;
+    if (nb > (kb > (CACHELINE/p) ? kb : (CACHELINE/p)))
+        return -1;
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
-- 
2.43.0


From 887407cf048b40dd0b0aeea51bc5a66a280020b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 018/245] fix: block reflector kept stale values for reflectors
 with zero scalar

---
 src/lapack/hess.c | 2 ++
 src/lapack/lq.c   | 4 ++++
 src/lapack/ql.c   | 4 ++++
 src/lapack/qr.c   | 4 ++++
 src/lapack/rq.c   | 4 ++++
 5 files changed, 18 insertions(+)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index a294c4a..1163b66 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -277,6 +277,8 @@ int unblk_build_hess_gqvdg(armas_dense_t * A, armas_dense_t * T,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8144f38..59e6660 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -274,6 +274,10 @@ int armas_unblk_lq_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // zero column; H = I
+            armas_set(&t11, 0, 0, ZERO);
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 2a34ede..09d3015 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -317,6 +317,10 @@ int armas_unblk_ql_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t21 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            // zero column; H = I
+            armas_set(&t11, 0, 0, ZERO);
+            armas_mscale(&t21, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index af18514..965fad5 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -300,6 +300,10 @@ int armas_unblk_qr_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // zero column; H = I
+            armas_set(&t11, 0, 0, ZERO);
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 5150488..b46ba8b 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -318,6 +318,10 @@ int armas_unblk_rq_reflector(armas_dense_t * T, armas_dense_t * A,
                            conf);
             // t01 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
+        } else {
+            // zero column; H = I
+            armas_set(&t11, 0, 0, ZERO);
+            armas_mscale(&t21, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 07a83aeb58f3e03ee3eacc112b451c3f68b57369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 019/245] fix: lqreflector demanded column count sized block
 reflector

---
 src/lapack/lq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 59e6660..8cdcdb7 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -314,7 +314,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 7640dc9b2168fb52c81e565e44b1731d11e64d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 020/245] fix: qrtfactor partitioned block reflector wrong and
 computed its columns from wrong blocks

---
 src/lapack/qrt.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..22edf54 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -36,7 +36,7 @@ static
 int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                     armas_dense_t * W, armas_conf_t * conf)
 {
-    armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    armas_dense_t ATL, ABR, A00, a10, a11, a12, A20, a21, A22;
     armas_dense_t TTL, TTR, TBR, T00, t01, t11, T22, w12;
     DTYPE tauval;
 
@@ -51,8 +51,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         mat_repartition_2x2to3x3(
             &ATL,
             &A00, __nil, __nil,
-            __nil, &a11, &a12,
-            __nil, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
+            &a10, &a11, &a12,
+            &A20, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_2x2to3x3(
             &TTL,
             &T00, &t01, __nil,
@@ -68,11 +68,13 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a12, conf);
+            armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01,
-                           -tauval, &A22, &a21, ARMAS_TRANSA, conf);
+                           -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -107,7 +109,7 @@ int blk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
     mat_partition_2x2(
         &ATL, __nil, __nil, &ABR, /**/ A, 0, 0, ARMAS_PTOPLEFT);
     mat_partition_1x2(
-        &TL, &TR, /**/ T, 0, ARMAS_LEFT);
+        &TL, &TR, /**/ T, 0, ARMAS_PLEFT);
 
     while (ABR.rows - lb > 0 && ABR.cols - lb > 0) {
         mat_repartition_2x2to3x3(
@@ -253,7 +255,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return -ARMAS_ESIZE;
     }
     // set blocking factor to number of rows in T
-    wsmin = lb == 0 || A->cols < lb ? A->cols : lb*(A->cols - lb);
+    wsmin = lb == 0 || A->cols <= lb ? A->cols : lb*(A->cols - lb);
     if (!wb || armas_wbytes(wb) < wsmin*sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 69cfaec1127168aba6d94d659b4a8bcd56505aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 021/245] fix: lufactor lost the singular matrix error of all
 but the last column

---
 src/lapack/lu.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..6f5bc42 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -37,6 +37,7 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
     DTYPE a11val;
+    int err = 0;
 
     EMPTY(A00);
     EMPTY(a11);
@@ -52,7 +53,12 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
         // ---------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        armas_scale(&a21, ONE/a11val, conf);
+        if (a11val == 0.0) {
+            conf->error = ARMAS_ESINGULAR;
+            err = -1;
+        } else {
+            armas_scale(&a21, ONE/a11val, conf);
+        }
 
         // A22 = A22 - a21*a12
         armas_mvupdate(ONE, &A22, -ONE, &a21, &a12, conf);
@@ -61,13 +67,14 @@ int unblk_lufactor_nopiv(armas_dense_t * A, armas_conf_t * conf)
             &ATL, __nil,
             __nil, &ABR, /**/ &A00, &a11, &A22, A, ARMAS_PBOTTOMRIGHT);
     }
-    return 0;
+    return err;
 }
 
 static
 int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 {
     armas_dense_t ATL, ABR, A00, A11, A12, A21, A22;
+    int err = 0;
 
     EMPTY(A00);
 
@@ -82,7 +89,8 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
             __nil, &A21, &A22, /**/ A, lb, ARMAS_PBOTTOMRIGHT);
         // ---------------------------------------------------------------------
         // A11 = LU(A11)
-        unblk_lufactor_nopiv(&A11, conf);
+        if (unblk_lufactor_nopiv(&A11, conf) < 0)
+            err = -1;
         // A12 = trilu(A11)*A12.-1
         armas_solve_trm(&A12, ONE, &A11,
                           ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, conf);
@@ -98,9 +106,10 @@ int blk_lufactor_nopiv(armas_dense_t * A, int lb, armas_conf_t * conf)
 
     // last block with unblocked 
     if (ABR.rows > 0 && ABR.cols > 0) {
-        unblk_lufactor_nopiv(&ABR, conf);
+        if (unblk_lufactor_nopiv(&ABR, conf) < 0)
+            err = -1;
     }
-    return 0;
+    return err;
 }
 
 /*
@@ -145,7 +154,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -236,7 +245,8 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if (unblk_lufactor(&AB0, &p1, ATL.rows, conf) < 0)
+            err = -1;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From f396f3215b1a8aff2b674a5c8c3a96973cc82494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 022/245] fix: lusolve applied factors and pivots in wrong
 order for transposed systems

---
 src/lapack/lu.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 6f5bc42..8293973 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -361,18 +361,20 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        // solve A.T*X = B; A = P*L*U; X = A.-T*B == P*(L.-T*(U.-T*B))
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        armas_solve_trm(
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        if (P) {
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From 5481c527b4d2e230ce54730e07b68080a5e357a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 023/245] fix: lower cholfactor accepted zero on the diagonal
 and divided by it

---
 src/lapack/chol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..3aa5547 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -55,7 +55,7 @@ int unblk_cholfactor_lower(armas_dense_t * A, armas_conf_t * cf)
         // --------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        if (a11val >= 0.0) {
+        if (a11val > 0.0) {
             // a11 = sqrt(a11)
             a11val = SQRT(a11val);
             armas_set(&a11, 0, 0, a11val);
-- 
2.43.0


From fad356429232ae2fecf1138bfd42c52e67007a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 024/245] fix: pivoted cholfactor of a rank deficient matrix
 applied stale pivots

---
 src/lapack/cholpv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index 7a6605a..0b4bea4 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -526,7 +526,7 @@ int blk_cholpv_upper(armas_dense_t * A, armas_dense_t * W,
 int armas_cholfactor_pv(armas_dense_t * A, armas_dense_t * W,
                           armas_pivot_t * P, int flags, armas_conf_t * cf)
 {
-    int ws, nrank = 0;
+    int k, ws, nrank = 0;
     DTYPE xstop;
     armas_dense_t D;
     armas_env_t *env;
@@ -544,6 +544,10 @@ int armas_cholfactor_pv(armas_dense_t * A, armas_dense_t * W,
         return -ARMAS_ESIZE;
     }
 
+    // rank deficient factorization does not reach the last pivots
+    for (k = 0; k < armas_pivot_size(P); k++)
+        armas_pivot_set_unsafe(P, k, 0);
+
     env = armas_getenv();
     ws = armas_size(W);
     if (ws < A->cols)
-- 
2.43.0


From ae88302b679ebc8fa0b3e661244d3f59c67897d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 025/245] fix: cholsolve restored rows of a rank deficient
 solution with wrong indices

---
 src/lapack/cholpv.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index 0b4bea4..a7922a4 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -605,7 +605,7 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
                          armas_pivot_t * P, int flags, armas_conf_t * cf)
 {
     armas_dense_t BT, BB, Ac;
-    int pivot1_dir, pivot2_dir;
+    int k;
     if (!cf)
         cf = armas_conf_default();
 
@@ -617,10 +617,7 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
-    pivot1_dir = ARMAS_PIVOT_FORWARD;
-    pivot2_dir = ARMAS_PIVOT_BACKWARD;
-
-    armas_pivot(B, P, ARMAS_PIVOT_ROWS | pivot1_dir, cf);
+    armas_pivot(B, P, ARMAS_PIVOT_ROWS | ARMAS_PIVOT_FORWARD, cf);
 
     if (P->npivots < A->cols) {
         // not full rank
@@ -651,7 +648,11 @@ int armas_cholsolve_pv(armas_dense_t * B, armas_dense_t * A,
             &BT, ONE, &Ac, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANS, cf);
     }
 
-    armas_pivot(B, P, ARMAS_PIVOT_ROWS | pivot2_dir, cf);
+    // undo pivots; index k is for row k also when there is less pivots than rows
+    for (k = armas_pivot_size(P) - 1; k >= 0; k--) {
+        if (armas_pivot_get_unsafe(P, k) > 0)
+            swap_rows(B, k, armas_pivot_get_unsafe(P, k) - 1, cf);
+    }
 
     return 0;
 }
-- 
2.43.0


From eb780d22db9611617c8646db2c4662a3e0bdd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 026/245] fix: unblocked triangular inverse ignored unit
 diagonal flag

---
 src/lapack/invtrm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/invtrm.c b/src/lapack/invtrm.c
index 0659c46..c9a1b4e 100644
--- a/src/lapack/invtrm.c
+++ b/src/lapack/invtrm.c
@@ -72,7 +72,8 @@ int unblk_inverse_upper(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a01 = -a11val*A00*a01
-        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER, conf);
+        armas_mvmult_trm(&a01, -a11val, &A00,
+                         ARMAS_UPPER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
@@ -155,7 +156,8 @@ int unblk_inverse_lower(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a21 = -a11val*A22*a21
-        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER, conf);
+        armas_mvmult_trm(&a21, -a11val, &A22,
+                         ARMAS_LOWER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
-- 
2.43.0


From 026e401d12a15847772f01e6c4791c3e962e6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 027/245] fix: ldlsolve with transpose flag used transposed
 factors twice

---
 src/lapack/ldl.c   | 19 +++++++------------
 src/lapack/ldlpv.c | 19 +++++++------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/lapack/ldl.c b/src/lapack/ldl.c
index 1d8c710..d2cb112 100644
--- a/src/lapack/ldl.c
+++ b/src/lapack/ldl.c
@@ -315,18 +315,13 @@ int ldlsolve_np(armas_dense_t * B, const armas_dense_t * A, int flags,
         return -ARMAS_ESIZE;
     }
 
-    if (flags & ARMAS_TRANS) {
-        // X = L.-1*(D.-1*(L.-T*B))
-        armas_solve_trm(B, ONE, A,
-                          flags | ARMAS_UNIT | ARMAS_TRANS | ARMAS_LEFT, conf);
-        armas_solve_diag(B, ONE, A, ARMAS_LEFT, conf);
-        armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_LEFT, conf);
-    } else {
-        // X = L.-T*(D.-1*(L.-1*B))
-        armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_LEFT, conf);
-        armas_solve_diag(B, ONE, A, ARMAS_LEFT, conf);
-        armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_TRANS, conf);
-    }
+    // A is symmetric; transpose is the same system
+    flags &= ~ARMAS_TRANS;
+
+    // X = L.-T*(D.-1*(L.-1*B))
+    armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_LEFT, conf);
+    armas_solve_diag(B, ONE, A, ARMAS_LEFT, conf);
+    armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_TRANS, conf);
     return 0;
 }
 #endif
diff --git a/src/lapack/ldlpv.c b/src/lapack/ldlpv.c
index 7ec5c31..ad346fd 100644
--- a/src/lapack/ldlpv.c
+++ b/src/lapack/ldlpv.c
@@ -652,18 +652,13 @@ int armas_ldlsolve(armas_dense_t * B,
 
     armas_pivot(B, (armas_pivot_t *) P, ARMAS_PIVOT_ROWS | pivot1_dir, conf);
 
-    if (flags & ARMAS_TRANS) {
-        // X = L.-1*(D.-1*(L.-T*B))
-        armas_solve_trm(B, ONE, A,
-                          flags | ARMAS_UNIT | ARMAS_TRANS | ARMAS_LEFT, conf);
-        armas_solve_diag(B, ONE, A, ARMAS_LEFT, conf);
-        armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_LEFT, conf);
-    } else {
-        // X = L.-T*(D.-1*(L.-1*B))
-        armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_LEFT, conf);
-        armas_solve_diag(B, ONE, A, ARMAS_LEFT, conf);
-        armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_TRANS, conf);
-    }
+    // A is symmetric; transpose is the same system
+    flags &= ~ARMAS_TRANS;
+
+    // X = L.-T*(D.-1*(L.-1*B))
+    armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_LEFT, conf);
+    armas_solve_diag(B, ONE, A, ARMAS_LEFT, conf);
+    armas_solve_trm(B, ONE, A, flags | ARMAS_UNIT | ARMAS_TRANS, conf);
 
     armas_pivot(B, (armas_pivot_t *) P, ARMAS_PIVOT_ROWS | pivot2_dir, conf);
 
-- 
2.43.0


From 3bf763c9ed257c947439a60ee4679a04cf263f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 028/245] fix: bkfactor did not terminate with blocking factor
 one

---
 src/lapack/ldlbk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 35e5f70..1e366dd 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -159,7 +159,8 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         armas_pivot_set(P, k, 0);
     }
 
-    if (lb == 0 || A->cols <= lb) {
+    // block of one column cannot hold a 2x2 pivot
+    if (lb < 2 || A->cols <= lb) {
         armas_make(&Wrk, A->rows, 2, A->rows, armas_wptr(wb));
         if (flags & ARMAS_UPPER) {
             armas_unblk_bkfactor_upper(A, &Wrk, P, conf);
-- 
2.43.0


From 8224d81812d8460a6d719ae5de698d8e628b6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 029/245] fix: ldlinverse returned success for a singular
 factor

---
 src/lapack/invldl.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lapack/invldl.c b/src/lapack/invldl.c
index 9134c41..965aa23 100644
--- a/src/lapack/invldl.c
+++ b/src/lapack/invldl.c
@@ -87,7 +87,12 @@ int unblk_invldl_lower(armas_dense_t * A, armas_dense_t * W,
                            ARMAS_LOWER | ARMAS_LEFT, conf);
         // a11 = a11 - a21.T*l21
         udot = armas_dot(&a21, &l21, conf);
-        a11val = ONE / armas_get_unsafe(&a11, 0, 0);
+        a11val = armas_get_unsafe(&a11, 0, 0);
+        if (a11val == ZERO && err == 0) {
+            conf->error = ARMAS_ESINGULAR;
+            err = -1;
+        }
+        a11val = ONE / a11val;
         armas_set_unsafe(&a11, 0, 0, a11val - udot);
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -205,7 +210,12 @@ int unblk_invldl_upper(armas_dense_t * A, armas_dense_t * W,
         armas_copy(&u01, &a01, conf);
 
         armas_mvmult_sym(ZERO, &a01, -ONE, &A00, &u01, ARMAS_UPPER, conf);
-        a11val = ONE / armas_get_unsafe(&a11, 0, 0);
+        a11val = armas_get_unsafe(&a11, 0, 0);
+        if (a11val == ZERO && err == 0) {
+            conf->error = ARMAS_ESINGULAR;
+            err = -1;
+        }
+        a11val = ONE / a11val;
         udot = armas_dot(&a01, &u01, conf);
         armas_set_unsafe(&a11, 0, 0, a11val - udot);
         // ---------------------------------------------------------------------
-- 
2.43.0


From 170e20c42c4fb945efe6ea7f7a7e09842bdae935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 030/245] fix: mult_diag and solve_diag refused matrices of one
 row or column

---
 src/lapack/diag.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..64dc7fc 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -64,11 +64,8 @@ int armas_mult_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    // vector of same size as D; otherwise it is a matrix of one row or column
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
@@ -147,11 +144,8 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    // vector of same size as D; otherwise it is a matrix of one row or column
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
-- 
2.43.0


From f24559efe4678f465d180298cd52d48c487a1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 031/245] fix: solve_diag of a matrix divided by alpha instead
 of multiplying

---
 src/lapack/diag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 64dc7fc..96abd6b 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -166,9 +166,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     case ARMAS_LEFT:
@@ -181,9 +181,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     }
-- 
2.43.0


From 7922502a8eda12d6457b05f56a5da23d18c79e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 032/245] fix: bkfactor divided by zero pivot of a zero column

---
 src/lapack/ldlbkl.c | 14 +++++++++-----
 src/lapack/ldlbku.c | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lapack/ldlbkl.c b/src/lapack/ldlbkl.c
index 2295539..cbbbb9e 100644
--- a/src/lapack/ldlbkl.c
+++ b/src/lapack/ldlbkl.c
@@ -176,10 +176,13 @@ int armas_unblk_bkfactor_lower(armas_dense_t * A, armas_dense_t * W,
         if (np == 1) {
             // A22 = A22 - a21*a21.T/a11
             a11val = armas_get(&a11, 0, 0);
-            armas_mvupdate_trm(
-                ONE, &A22, -ONE / a11val, &a21, &a21, ARMAS_LOWER, conf);
-            // a21 = a21/a11
-            armas_scale(&a21, ONE/a11val, conf);
+            // zero pivot only if the whole column is zero
+            if (a11val != ZERO) {
+                armas_mvupdate_trm(
+                    ONE, &A22, -ONE / a11val, &a21, &a21, ARMAS_LOWER, conf);
+                // a21 = a21/a11
+                armas_scale(&a21, ONE/a11val, conf);
+            }
             // store pivot point relative to original matrix
             armas_pivot_set(&p1, 0, r + ATL.rows + 1);
         } else if (np == 2) {
@@ -423,7 +426,8 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
             armas_set(&a11, 0, 0, a11val);
             // a21 = a21/a11
             armas_axpby(ZERO, &a21, ONE, &cwrk, conf);
-            armas_scale(&a21, ONE/a11val, conf);
+            if (a11val != ZERO)
+                armas_scale(&a21, ONE/a11val, conf);
             // store pivot point relative to original matrix
             armas_pivot_set(&p1, 0, r + ATL.rows + 1);
         } else if (np == 2) {
diff --git a/src/lapack/ldlbku.c b/src/lapack/ldlbku.c
index 651f46e..77db00c 100644
--- a/src/lapack/ldlbku.c
+++ b/src/lapack/ldlbku.c
@@ -164,10 +164,13 @@ int armas_unblk_bkfactor_upper(armas_dense_t * A, armas_dense_t * W,
         if (np == 1) {
             // A00 = A00 - a01*a01.T/a11
             a11val = armas_get(&a11, 0, 0);
-            armas_mvupdate_trm(
-                ONE, &A00, -ONE / a11val, &a01, &a01, ARMAS_UPPER, conf);
-            // a01 = a01/a11
-            armas_scale(&a01, ONE/a11val, conf);
+            // zero pivot only if the whole column is zero
+            if (a11val != ZERO) {
+                armas_mvupdate_trm(
+                    ONE, &A00, -ONE / a11val, &a01, &a01, ARMAS_UPPER, conf);
+                // a01 = a01/a11
+                armas_scale(&a01, ONE/a11val, conf);
+            }
             // store pivot point relative to original matrix
             pi = r == -1 ? ATL.rows : r + 1;
             armas_pivot_set(&p1, 0, pi);
@@ -411,7 +414,8 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
             armas_set(&a11, 0, 0, a11val);
             // a01 = a01/a11
             armas_copy(&a01, &cwrk, conf);
-            armas_scale(&a01, ONE/a11val, conf);
+            if (a11val != ZERO)
+                armas_scale(&a01, ONE/a11val, conf);
             // store pivot point relative to original matrix
             pi = r == -1 ? ATL.rows : r + 1;
             armas_pivot_set(&p1, 0, pi);
-- 
2.43.0


From a73c99c20a21b81a1b641a8fcd633798794bf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 033/245] fix: blocked bkfactor overwrote its workspace with
 blocking factor two

---
 src/lapack/ldlbkl.c | 5 ++---
 src/lapack/ldlbku.c | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/ldlbkl.c b/src/lapack/ldlbkl.c
index cbbbb9e..f07a9b1 100644
--- a/src/lapack/ldlbkl.c
+++ b/src/lapack/ldlbkl.c
@@ -353,7 +353,7 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w10, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
-    //DTYPE abuf[4];
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -366,8 +366,7 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
         &pT, &pB, /**/ P, 0, ARMAS_PTOP);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, 0, W->cols - 2, 2, 2);
-    //armas_make(&a11inv, 2, 2, 2, abuf);
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
diff --git a/src/lapack/ldlbku.c b/src/lapack/ldlbku.c
index 77db00c..88009e8 100644
--- a/src/lapack/ldlbku.c
+++ b/src/lapack/ldlbku.c
@@ -341,6 +341,7 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w01, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -353,7 +354,7 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     pivot_2x1(&pT, &pB, /**/ P, 0, ARMAS_PBOTTOM);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, W->rows - 2, 0, 2, 2);
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
-- 
2.43.0


From 99cd2c69d97549e183b54af4eda532e99135d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 034/245] fix: trdbuild and bdbuild modified their operand when
 refusing a small workspace

---
 src/lapack/bibld.c  | 10 ++++++++++
 src/lapack/tribld.c |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index aa4fe6f..0ff5462 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -130,6 +130,11 @@ int armas_bdbuild_w(armas_dense_t * A,
             err = armas_qrbuild_w(A, &tauh, K, wb, conf);
             break;
         case ARMAS_WANTP:
+            // refuse too small workspace before moving the reflectors
+            if (!wb || armas_wbytes(wb) < (A->cols - 1) * sizeof(DTYPE)) {
+                conf->error = ARMAS_EWORK;
+                return -ARMAS_EWORK;
+            }
             // shift P matrix embedded in A down and fill first column and
             // row to unit vectors
             for (j = A->cols - 1; j > 0; j--) {
@@ -159,6 +164,11 @@ int armas_bdbuild_w(armas_dense_t * A,
 
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
         case ARMAS_WANTQ:
+            // refuse too small workspace before moving the reflectors
+            if (!wb || armas_wbytes(wb) < (A->rows - 1) * sizeof(DTYPE)) {
+                conf->error = ARMAS_EWORK;
+                return -ARMAS_EWORK;
+            }
             // shift Q matrix embedded in A right and fill first column and
             // row to unit vectors
             for (j = A->rows - 1; j > 0; j--) {
diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index e1dd45a..be11a3c 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -118,6 +118,12 @@ int armas_trdbuild_w(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
+    // refuse too small workspace before moving the reflectors
+    if (!wb || armas_wbytes(wb) < (A->cols - 1) * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
+
     if (K > A->rows - 1)
         K = A->rows - 1;
 
-- 
2.43.0


From 2ee65846c38e0504098923e6e0d7351467c6196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 035/245] fix: qdroots returned double sized roots when linear
 coefficient is zero

---
 src/lapack/qdroot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index 780e8c8..5a0000d 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -145,9 +145,10 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
-    s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
+    s = SQRT(d) * signb + b;
     *x1 = s / a;
-    *x2 = c / s;
+    // here s is zero only if b and c are zero
+    *x2 = s == ZERO ? ZERO : c / s;
     return 0;
 }
 
-- 
2.43.0


From f9f62c8919b6e7a0eb38b4b76ff6b210ffc9b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 036/245] fix: configuration option ARMAS_ONONNEG had no effect

---
 src/lapack/house.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..ca2e2f1 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -290,7 +290,7 @@ int armas_house_vec(armas_dense_t * x, armas_dense_t * tau, int flags,
 void armas_compute_householder(armas_dense_t * a11, armas_dense_t * x,
                                  armas_dense_t * tau, armas_conf_t * cf)
 {
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
     internal_householder(a11, x, tau, flags, cf);
 }
 
@@ -305,7 +305,7 @@ void armas_compute_householder_vec(armas_dense_t * x, armas_dense_t * tau,
         return;
     }
 
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
 
     armas_submatrix(&alpha, x, 0, 0, 1, 1);
     if (x->rows == 1) {
@@ -328,7 +328,7 @@ void armas_compute_householder_rev(armas_dense_t * x, armas_dense_t * tau,
         return;
     }
 
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
 
     if (x->rows == 1) {
         armas_submatrix(&alpha, x, 0, -1, 1, 1);
-- 
2.43.0


From 43a56b4e57778cb0f0fa419d33419b430ce58237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 037/245] fix: unscaled householder reflector of vector with
 zero tail was not a reflector

---
 src/lapack/house.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index ca2e2f1..53f3034 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -184,12 +184,20 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
     DTYPE normx, x0val, alpha, beta, delta, sign;
 
     normx = armas_nrm2(x1, cf);
+    x0val = armas_get_unsafe(x0, 0, 0);
     if (normx == 0.0) {
-        armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        if ((flags & ARMAS_NONNEG) != 0 && x0val < ZERO) {
+            // H = I - 2*e_0*e_0^T
+            armas_set_unsafe(x0, 0, 0, ONE);
+            x0val = -x0val;
+        } else {
+            // H = I
+            armas_set_unsafe(x0, 0, 0, ZERO);
+        }
+        armas_set_unsafe(tau, 0, 0, x0val);
         return 0;
     }
 
-    x0val = armas_get_unsafe(x0, 0, 0);
     sign = SIGN(x0val) ? -1.0 : 1.0;
 
     beta = HYPOT(x0val, normx);
-- 
2.43.0


From 9419bc45d991c3debefeaf531fb310b0f64e8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 038/245] fix: householder reflector with sign options was
 wrong for vector with zero tail

---
 src/lapack/house.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 53f3034..c990c43 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -101,12 +101,33 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
     int nscale = 0;
 
     normx = armas_nrm2(x, cf);
+    alpha = armas_get_unsafe(a11, 0, 0);
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        t = ZERO;
+        switch ((flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG))) {
+        case ARMAS_HHNEGATIVE | ARMAS_NONNEG:
+            // H = I - 2*e_0*e_0^T unless alpha already non-positive
+            if (alpha > ZERO)
+                t = TWO;
+            else
+                armas_set_unsafe(a11, 0, 0, -alpha);
+            break;
+        case ARMAS_HHNEGATIVE:
+            armas_set_unsafe(a11, 0, 0, -alpha);
+            break;
+        case ARMAS_NONNEG:
+            if (alpha < ZERO) {
+                t = TWO;
+                armas_set_unsafe(a11, 0, 0, -alpha);
+            }
+            break;
+        default:
+            break;
+        }
+        armas_set(tau, 0, 0, t);
         return 0;
     }
 
-    alpha = armas_get_unsafe(a11, 0, 0);
     sign = SIGN(alpha) ? -1.0 : 1.0;
 
     beta = HYPOT(alpha, normx);
-- 
2.43.0


From 5f0a9610ce69aba02c7d795fc79d19d4d2f9c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 039/245] fix: householder reflector with non-negative beta
 divided by underflowed value

---
 src/lapack/house.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index c990c43..2b6c29c 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -182,7 +182,13 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
         t = -delta / beta;
         break;
     }
-    armas_scale(x, 1.0 / delta, cf);
+    if (ABS(delta) < SAFEMIN) {
+        // delta underflows; x negligible with respect to alpha, H = I
+        armas_scale(x, ZERO, cf);
+        t = ZERO;
+    } else {
+        armas_scale(x, 1.0 / delta, cf);
+    }
     armas_set_unsafe(tau, 0, 0, t);
 
     while (nscale-- > 0) {
-- 
2.43.0


From 603f812106232d4d7e4e7d813e7f7afbaae07e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 040/245] fix: houseapply confused scaled and unscaled
 reflectors and left and right sizes

---
 src/lapack/house.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 2b6c29c..07e1044 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -515,8 +515,8 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
  *     Householder scalar for unit scaled reflector or null for unscaled
  *     reflector.
  *  @param [in] v
- *     Reflector vector; for unscaled reflector then length is rows(A) if
- *     applying from right and if applying from LEFT then length is cols(A).
+ *     Reflector vector; for unscaled reflector then length is cols(A) if
+ *     applying from right and if applying from LEFT then length is rows(A).
  *     If unit scaled reflector then length one element shorter.
  *  @param [in] w
  *     Workspace, at least of size rows(A) for ARMAS_RIGHT or cols(A) for
@@ -537,7 +537,8 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    // if tau != __nil then unit scaled reflector otherwise unscaled reflector
+    int scaled = tau ? 1 : 0;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -562,25 +563,28 @@ int armas_houseapply(armas_dense_t * A,
         }
         return 0;
     }
-    // if tau != __nil then unit scaled reflector otherwise unscaled reflector
-    int ok = 0;
+    int ok = 0, wsz;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
+        wsz = A->rows;
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        ok = A->rows - scaled == armas_size(v);
+        wsz = A->cols;
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < wsz) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
 
+    // left is default
+    flags = (flags & ARMAS_RIGHT) != 0 ? flags & ~ARMAS_LEFT : flags | ARMAS_LEFT;
     if (scaled) {
         switch (flags & (ARMAS_RIGHT | ARMAS_LEFT)) {
         case ARMAS_RIGHT:
-- 
2.43.0


From 3526f7d9da3da20328cf49bd596993e70b959b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 041/245] fix: housemult reserved wrong sized workspace without
 side flag and did not check its size

---
 src/lapack/housem.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..fbff53f 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -322,7 +322,7 @@ int armas_housemult_w(armas_dense_t * X,
     }
     if (!armas_isvector(X) && wb->bytes == 0) {
         // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
@@ -345,8 +345,12 @@ int armas_housemult_w(armas_dense_t * X,
     armas_dense_t w, *wptr;
     wptr = __nil;
     if (!armas_isvector(X)) {
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
+        if (!t) {
+            cf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
     }
-- 
2.43.0


From e549e682c1a6b215c9ef9e99239fa91039fed2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 042/245] fix: hhouse looped forever for vector with zero
 hyperbolic norm

---
 src/lapack/hhouse.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..ec43352 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -103,8 +103,8 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
 
     normx = armas_nrm2(x, cf);
     alpha = armas_get(a11, 0, 0);
-    if (ABS(alpha) < normx) {
-        // alpha^2 - normx^2 < 0; sqrt not defined
+    if (ABS(alpha) < normx || (normx != ZERO && ABS(alpha) == normx)) {
+        // alpha^2 - normx^2 < 0; sqrt not defined (and zero beta has no reflector)
         cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -114,9 +114,12 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
     }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
+    if (beta == ZERO) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // guard agains underflow; see (2)
     if (ABS(beta) < safmin) {
-        printf("beta : %e\n", beta);
         // normx, beta may be inaccurate, scale and recompute
         rsafmin = 1.0 / safmin;
         do {
-- 
2.43.0


From 248a88a946f407a0bed59a36abc20189f0ae1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 043/245] fix: gvleft and gvright ran past the end of row or
 column

---
 src/lapack/givens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..d65b08e 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
-- 
2.43.0


From 6252707a0fd6f1a00edb8f9990f4bcb613d0c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 044/245] fix: gvupdate applied last rotation past the last row
 or column and miscounted rotations

---
 src/lapack/givens.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index d65b08e..f6feefe 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-start-1) for left and
+ *      min(nrot, A->cols-start-1) for right.
  *
  * @ingroup lapack
  */
@@ -229,21 +229,23 @@ int armas_gvupdate(armas_dense_t * A, int start,
                      armas_dense_t * C, armas_dense_t * S, int nrot,
                      int flags)
 {
-    int k, n, end = start + nrot;
+    int k, n, dim;
     DTYPE c, s;
 
+    // rotation k applies to rows/columns start+k and start+k+1
+    dim = (flags & ARMAS_LEFT) != 0 ? A->rows : A->cols;
+    nrot = max(0, min(nrot, dim - 1 - start));
+
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            for (k = start + nrot, n = nrot; n > 0; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
                     gvleft(A, c, s, k - 1, k, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            for (k = start + nrot, n = nrot; n > 0; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
@@ -253,16 +255,14 @@ int armas_gvupdate(armas_dense_t * A, int start,
     } else {
         // here we apply forward direction
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
-            for (k = start, n = 0; n < nrot && k < end; n++, k++) {
+            for (k = start, n = 0; n < nrot; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
                 if (c != 1.0 || s != 0.0)
                     gvleft(A, c, s, k, k + 1, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
-            for (k = start, n = 0; n < nrot && k < end; n++, k++) {
+            for (k = start, n = 0; n < nrot; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
                 if (c != 1.0 || s != 0.0)
@@ -270,7 +270,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return nrot;
 }
 
 
-- 
2.43.0


From 2bad085492fcecdba45c5a4ff71f319f7884b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 045/245] fix: butterfly updates overran small matrices when
 depth extends size over twice of it

---
 src/lapack/rbtgm.c | 20 ++++++++++++--------
 src/lapack/rbtgu.c | 11 +++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6ec7b58..4dd62ed 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -53,7 +53,7 @@ static
 void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
               armas_conf_t * conf)
 {
-    int i, j, rb, nb;
+    int i, j, rb, nb, ub;
     DTYPE r0, r1, a00, a10;
 
     // initial
@@ -62,8 +62,10 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
         rb = 0;
     } else {
         nb = Nd == 1 ? 1 : (Nd + 1) / 2;
-        rb = A->rows - nb;
+        rb = A->rows > nb ? A->rows - nb : 0;
     }
+    // last element of upper part; less than nb when Nd >> rows(A)
+    ub = nb < A->rows ? nb : A->rows;
 
     if (flags & ARMAS_TRANS) {
         //printf("..rows=%d, Nd=%d, nb=%d, rb=%d\n", A->rows, Nd, nb, rb);
@@ -76,7 +78,7 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, r0 * (a00 + a10));
                 armas_set_unsafe(A, i + nb, j, r1 * (a00 - a10));
             }
-            for (; i < nb; i++) {
+            for (; i < ub; i++) {
                 r0 = armas_get_at_unsafe(R, i);
                 a00 = armas_get_unsafe(A, i, j);
                 armas_set_unsafe(A, i, j, r0 * a00);
@@ -95,7 +97,7 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             armas_set_unsafe(A, i + nb, j, a00 - a10);
         }
         // for case when Nd > rows(A)
-        for (; i < nb; i++) {
+        for (; i < ub; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
@@ -182,7 +184,7 @@ static
 void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                armas_conf_t * conf)
 {
-    int i, j, rb, nb;
+    int i, j, rb, nb, ub;
     DTYPE r0, r1, a00, a01;
 
     // initial 
@@ -191,8 +193,10 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
         rb = 0;
     } else {
         nb = Nd == 1 ? 1 : (Nd + 1) / 2;
-        rb = A->cols - nb;
+        rb = A->cols > nb ? A->cols - nb : 0;
     }
+    // last element of upper part; less than nb when Nd >> cols(A)
+    ub = nb < A->cols ? nb : A->cols;
 
     if (flags & ARMAS_TRANS) {
         j = 0;
@@ -207,7 +211,7 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             }
         }
         // for case when Nd > rows(A)
-        for (; j < nb; j++) {
+        for (; j < ub; j++) {
             r0 = armas_get_at_unsafe(R, j);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
@@ -224,7 +228,7 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             armas_set_unsafe(A, i, j, r0 * (a00 + a01));
             armas_set_unsafe(A, i, j + nb, r1 * (a00 - a01));
         }
-        for (; j < nb; j++) {
+        for (; j < ub; j++) {
             r0 = armas_get_at_unsafe(R, j);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 0c103d2..c557ffa 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -62,7 +62,7 @@ static
 void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                  armas_dense_t * S, int Nd, armas_conf_t * conf)
 {
-    int lb, nb, mb, i, j;
+    int lb, nb, mb, ub, vb, i, j;
     DTYPE r0, r1, s0, s1;
     DTYPE a00, a01, a10, a11;
 
@@ -76,6 +76,9 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
     lb = Nd / 2;
     mb = A->rows - lb;
     nb = A->cols - lb;
+    // sizes of A00 when Nd/2 > rows(A) or Nd/2 > cols(A)
+    ub = min(lb, A->rows);
+    vb = min(lb, A->cols);
     for (j = 0; j < nb; j++) {
         s0 = armas_get_at_unsafe(S, j);
         s1 = armas_get_at_unsafe(S, j + lb);
@@ -96,7 +99,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                                HALF * s1 * r1 * ((a00 + a11) - (a01 + a10)));
         }
         // for case when Nd > rows(A); here i+lb > rows(A)
-        for (; i < lb; i++) {
+        for (; i < ub; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             a01 = armas_get_unsafe(A, i, j + lb);
@@ -105,7 +108,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
         }
     }
     // Nd > cols(A); here j+lb > cols(A); this updates first and second quadrant
-    for (; j < lb; j++) {
+    for (; j < vb; j++) {
         s0 = armas_get_at_unsafe(S, j);
         for (i = 0; i < mb; i++) {
             r0 = armas_get_at_unsafe(R, i);
@@ -116,7 +119,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
             armas_set_unsafe(A, i + lb, j, HALF * s0 * r1 * (a00 - a10));
         }
         // for case when Nd > rows(A);
-        for (; i < lb; i++) {
+        for (; i < ub; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, HALF * s0 * r0 * (a00));
-- 
2.43.0


From 7e546369a18c9141b18f39609299c955232daf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 046/245] fix: mult_rbt with transpose from right wrote below
 the matrix

---
 src/lapack/rbtgm.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 4dd62ed..6d5003c 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -199,7 +199,6 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
     ub = nb < A->cols ? nb : A->cols;
 
     if (flags & ARMAS_TRANS) {
-        j = 0;
         for (i = 0; i < A->rows; i++) {
             for (j = 0; j < rb; j++) {
                 r0 = armas_get_at_unsafe(R, j);
@@ -209,12 +208,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, a00 + a01);
                 armas_set_unsafe(A, i, j + nb, a00 - a01);
             }
-        }
-        // for case when Nd > rows(A)
-        for (; j < ub; j++) {
-            r0 = armas_get_at_unsafe(R, j);
-            a00 = armas_get_unsafe(A, i, j);
-            armas_set_unsafe(A, i, j, r0 * a00);
+            // for case when Nd > cols(A)
+            for (; j < ub; j++) {
+                r0 = armas_get_at_unsafe(R, j);
+                a00 = armas_get_unsafe(A, i, j);
+                armas_set_unsafe(A, i, j, r0 * a00);
+            }
         }
         return;
     }
-- 
2.43.0


From 4301faaed84a6e2a1b10d0b44838884c808e9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 047/245] fix: mult_rbt from right applied butterfly levels in
 reverse order

---
 src/lapack/rbtgm.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6d5003c..1b90eb0 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -263,16 +263,17 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
     Nd = (A->cols + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
     k = twod >> 1;
+    // A*R multiplies first with the smallest butterfly; A*R^T with the largest
     if (flags & ARMAS_TRANS) {
-        pdir = ARMAS_PLEFT;
-        rdir = ARMAS_PRIGHT;
-        lb = Nd = Nd / k;
-        Rx = &RR;
-    } else {
         pdir = ARMAS_PRIGHT;
         rdir = ARMAS_PLEFT;
         lb = A->cols;
         Rx = &RL;
+    } else {
+        pdir = ARMAS_PLEFT;
+        rdir = ARMAS_PRIGHT;
+        lb = Nd = Nd / k;
+        Rx = &RR;
     }
     mat_partition_1x2(&RL, &RR, /**/ R, 0, pdir);
 
@@ -298,13 +299,13 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
         mat_continue_1x3to1x2(&RL, &RR, /**/ &R0, &R1, /**/ R, rdir);
         // next butterfly size
         if (flags & ARMAS_TRANS) {
+            lb = Nd / 2;
+            Nd = Nd / 2;
+        } else {
             lb = 2 * lb;
             Nd = 2 * Nd;
             if (lb > A->cols)
                 lb = A->cols;
-        } else {
-            lb = Nd / 2;
-            Nd = Nd / 2;
         }
     }
     // scale with (1/sqrt(2))^d
-- 
2.43.0


From d26201346d41806fd995359a28f89b48f99e3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 048/245] fix: size_rbt did not set factor unless it was
 non-zero on entry

---
 src/lapack/rbtgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 1b90eb0..9d4ad91 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -403,7 +403,7 @@ int armas_size_rbt(int *fact, int N, int depth)
     // extended size to multiple of 2^d
     Nd = (N + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
-    if (*fact)
+    if (fact)
         *fact = twod >> 1;
     return Nd;
 }
-- 
2.43.0


From 4cf9b83c4ed8b5d53d11e92574e61e819d0933f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 049/245] fix: housemult by reflector of order one changed only
 the first element of the other dimension

---
 src/lapack/housem.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index fbff53f..6116e80 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -69,7 +69,7 @@ void hmult_left(armas_dense_t * X, armas_dense_t * tau, armas_dense_t * P,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = X->cols == 1;
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = H(m-1)*...H(1)*H(0)*x
@@ -188,7 +188,7 @@ void hmult_right(armas_dense_t * X, armas_dense_t * tau,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = X->rows == 1;
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = x*H(m-1)*...H(1)*H(0)
@@ -316,11 +316,13 @@ int armas_housemult_w(armas_dense_t * X,
     if (!cf)
         cf = armas_conf_default();
 
-    if (!wb && !armas_isvector(X)) {
+    // no workspace needed for single column (left) or single row (right)
+    int isvector = ((flags & ARMAS_RIGHT) != 0 ? X->rows : X->cols) == 1;
+    if (!wb && !isvector) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
-    if (!armas_isvector(X) && wb->bytes == 0) {
+    if (!isvector && wb->bytes == 0) {
         // compute workspace size
         int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
@@ -344,7 +346,7 @@ int armas_housemult_w(armas_dense_t * X,
     size_t wpos = armas_wpos(wb);
     armas_dense_t w, *wptr;
     wptr = __nil;
-    if (!armas_isvector(X)) {
+    if (!isvector) {
         int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
         if (!t) {
@@ -376,7 +378,7 @@ int armas_housemult(armas_dense_t * X,
 {
     if (!cf)
         cf = armas_conf_default();
-    if (armas_isvector(X)) {
+    if (((flags & ARMAS_RIGHT) != 0 ? X->rows : X->cols) == 1) {
         return armas_housemult_w(X, tau, Q, flags, (armas_wbuf_t *) 0, cf);
     }
     int err;
-- 
2.43.0


From 4ab2a699a6d025ee31a0613915baf014d92796b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 050/245] fix: update2_rbt partitioned matrix smaller than half
 of its extended size out of its bounds

---
 src/lapack/rbtgu.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index c557ffa..d94a8d2 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -157,7 +157,8 @@ int armas_update2_rbt_descend(
     mat_partition_2x1(&U0, &U1, /**/ &UL, lb, ARMAS_PTOP);
     mat_partition_2x1(&V0, &V1, /**/ &VL, lb, ARMAS_PTOP);
 
-    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, lb, lb, ARMAS_PTOPLEFT);
+    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/
+        A, min(lb, A->rows), min(lb, A->cols), ARMAS_PTOPLEFT);
 
     // compute subblocks;
     armas_update2_rbt_descend(&A00, &U0, &V0, Nd / 2, conf);
-- 
2.43.0


From c3a4f56156907dade7c8533b07dc4c7e057e3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 051/245] fix: householder reflector with non-negative beta
 lost the tail of vectors close to underflow

---
 src/lapack/house.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 07e1044..f63b834 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -183,9 +183,16 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
         break;
     }
     if (ABS(delta) < SAFEMIN) {
-        // delta underflows; x negligible with respect to alpha, H = I
-        armas_scale(x, ZERO, cf);
-        t = ZERO;
+        // delta underflows; x is small with respect to alpha
+        t = (normx / beta) * (normx / (ABS(alpha) + beta));
+        if (t < SAFEMIN) {
+            // x negligible, H = I
+            armas_scale(x, ZERO, cf);
+            t = ZERO;
+        } else {
+            armas_scale(x, ONE / normx, cf);
+            armas_scale(x, -sign * ((ABS(alpha) + beta) / normx), cf);
+        }
     } else {
         armas_scale(x, 1.0 / delta, cf);
     }
-- 
2.43.0


From c0fa83ddff7155097fa7b955f1b70b252c62d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 052/245] fix: dqds did not clear its workspace

---
 src/lapack/dqds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index e236838..d1ed4bc 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -1128,7 +1128,7 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
      * represents {q(k), qq(k), e(k), ee(k)} tuple.
      */
     armas_make(&Z, 4, N, 4, (DTYPE *) armas_wptr(wb));
-    armas_scale(&Z, ZERO, conf);
+    armas_mscale(&Z, ZERO, 0, conf);
     armas_row(&sq, &Z, 0);
     armas_row(&se, &Z, 2);
 
-- 
2.43.0


From 1c39a689dd8023d92cbc1caf04c14aa09fb84af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 053/245] fix: dqds returned unsorted and negative singular
 values of diagonal matrix

---
 src/lapack/dqds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index d1ed4bc..79d1200 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -1149,6 +1149,9 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
 
     if (emax == ZERO) {
         // already diagonal
+        armas_copy(D, &sq, conf);
+        armas_sort_eigenvec(D, __nil, __nil, __nil, ARMAS_DESC);
+        armas_wsetpos(wb, wsz);
         return 0;
     }
 #if defined(__DQDS_SCALING)
-- 
2.43.0


From b6cb1e7625cb802846b55c1988f82d7a4439168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 054/245] fix: bdsvd chased bulge from the small end to the
 large end

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 6def402..bcc074c 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -236,7 +236,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             d0 = ABS(armas_get_at_unsafe(D, ip));
             d1 = ABS(armas_get_at_unsafe(D, iq - 1));
             // select direction
-            forwards = d1 >= d0 || (flags & ARMAS_FORWARD) != 0;
+            forwards = d0 >= d1 || (flags & ARMAS_FORWARD) != 0;
         }
         // convergence
         if (forwards) {
-- 
2.43.0


From 4e73058ee9e836bd44b08ab138067d00a2cf81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 055/245] fix: bdsvd did not converge for singular bidiagonal
 matrix

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index bcc074c..5d2ee22 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -179,7 +179,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             d0 = ABS(armas_get_at_unsafe(D, k - 1));
             e0 = ABS(armas_get_at_unsafe(E, k - 1));
-            if (e0 < threshold) {
+            if (e0 <= threshold) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom singular value
-- 
2.43.0


From e70c1b5aed215013e99c5000cbd887cd9c3eb742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 056/245] fix: dqds computed undefined values for matrix with
 zero diagonal element

---
 src/lapack/dqds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index 79d1200..4131ba9 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -859,7 +859,7 @@ void dqds_li_test(int ping, armas_dense_t * Z, int N, DTYPE * emin,
         ek = armas_get_at_unsafe(&se, k);
         qk1 = armas_get_at_unsafe(&sq, k + 1);
         qk = d + ek;
-        if (ek < EPS2 * d) {
+        if (ek <= EPS2 * d) {
             // Li's test eq.5 in (1), page 12
             //printf("..[li] ek=%13e < EPS2*d [%13e, %13e]\n", ek, d, EPS2*d);
             armas_set_at_unsafe(&se, k, -ZERO);
-- 
2.43.0


From 90809908b5aeb97d636a1b1e35622cf9b8995d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 057/245] fix: svd of vector gave wrong sign to the singular
 vectors

---
 src/lapack/svd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8f92e31..a60dd08 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -90,7 +90,7 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                 }
             } else {
                 // U is 1-by-1
-                armas_set_unsafe(U, 0, 0, -ONE);
+                armas_set_unsafe(U, 0, 0, armas_get_unsafe(A, 0, 0) < ZERO ? -ONE : ONE);
             }
         }
         if (flags & ARMAS_WANTV) {
@@ -107,7 +107,7 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                 }
             } else {
                 // V is 1-by-1
-                armas_set_unsafe(V, 0, 0, -ONE);
+                armas_set_unsafe(V, 0, 0, armas_get_unsafe(A, 0, 0) < ZERO ? -ONE : ONE);
             }
         }
         return 0;
-- 
2.43.0


From e9340636a4ded2160a7c3c13b9d23f3aa7172ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 058/245] fix: svd ran out of workspace of the size it had
 asked for

---
 src/lapack/svd.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index a60dd08..b8d410e 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -218,13 +218,6 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
     uu = __nil;
     vv = __nil;
 
-    if (flags & (ARMAS_WANTU | ARMAS_WANTV)) {
-        if (armas_wbytes(wb) < 4 * N * sizeof(DTYPE)) {
-            conf->error = ARMAS_EWORK;
-            return -ARMAS_EWORK;
-        }
-    }
-
     wsz = armas_wpos(wb);
 
     // 1. divide workspace
@@ -272,6 +265,8 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_RIGHT;
         vv = V;
     }
+
+    armas_wsetpos(wb, wsz);
     // run bidiagonal SVD
     if (armas_bdsvd_w(S, &sE, uu, vv, flags | ARMAS_UPPER, wb, conf) < 0)
         return -ARMAS_ESVD_EIGEN;
@@ -347,13 +342,6 @@ int armas_svd_wide(armas_dense_t * S, armas_dense_t * U,
     uu = __nil;
     vv = __nil;
 
-    if (flags & (ARMAS_WANTU | ARMAS_WANTV)) {
-        if (armas_wbytes(wb) < 4 * M * sizeof(DTYPE)) {
-            conf->error = ARMAS_EWORK;
-            return -ARMAS_EWORK;
-        }
-    }
-
     wsz = armas_wpos(wb);
     // 1. divide workspace
     buf = (DTYPE *) armas_wreserve(wb, M - 1, sizeof(DTYPE));
@@ -574,6 +562,7 @@ int armas_svd_w(armas_dense_t * S,
     int err, tall;
     armas_dense_t W;
     armas_env_t *env;
+    size_t wsmin, wsz;
 
     if (!conf)
         conf = armas_conf_default();
@@ -585,13 +574,14 @@ int armas_svd_w(armas_dense_t * S,
 
     tall = A->rows >= A->cols;
     env = armas_getenv();
+    // need space for reflector coefficients and bidiagonal reduction
+    int P = IMIN(A->rows, A->cols);
+    wsmin = (2 * P + A->rows + A->cols) * sizeof(DTYPE);
     if (wb && wb->bytes == 0) {
-        int P = A->rows >= A->cols ? A->cols : A->rows;
-        int K = A->rows >= A->cols ? A->rows : A->cols;
-        if (P <= env->lb)
-            wb->bytes = 4 * P * sizeof(DTYPE);
+        if (env->lb > 0 && P > env->lb)
+            wb->bytes = (2 * P + (A->rows + A->cols) * env->lb) * sizeof(DTYPE);
         else
-            wb->bytes = (K + env->lb) * env->lb * sizeof(DTYPE);
+            wb->bytes = wsmin;
         return 0;
     }
 
@@ -603,7 +593,7 @@ int armas_svd_w(armas_dense_t * S,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb) {
+    if (!wb || armas_wbytes(wb) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -660,6 +650,7 @@ int armas_svd_w(armas_dense_t * S,
 
     int K = armas_wbytes(wb) / sizeof(DTYPE);
     armas_make(&W, K, 1, K, armas_wptr(wb));
+    wsz = armas_wpos(wb);
 
     if (tall) {
         if (A->cols <= 2) {
@@ -674,6 +665,7 @@ int armas_svd_w(armas_dense_t * S,
             err = armas_svd_wide(S, U, V, A, flags, wb, conf);
         }
     }
+    armas_wsetpos(wb, wsz);
     return err;
 }
 #else
-- 
2.43.0


From 352be63676b61458b0019a0c955a805452d0174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 059/245] fix: bdsvd compared tolerances as integers and never
 chose zero shift

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 5d2ee22..33c558d 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -288,7 +288,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             }
         }
         // compute shift
-        if (!abstol && (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol)) {
+        if (!abstol && (N * tol * (slow / shigh)) <= MAX(EPS, 0.01 * tol)) {
             zero = 1;
         } else {
             if (forwards) {
-- 
2.43.0


From abe48afbfc4a1c9342623ef81b1ebe8297cd77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 060/245] fix: sign of singular values of 2-by-2 singular
 triangular matrix was taken from zero elements

---
 src/lapack/aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index f05dfae..6790297 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -279,13 +279,13 @@ void armas_bdsvd2x2_vec(DTYPE * ssmin, DTYPE * ssmax, DTYPE * cosl,
         *sinr = clt;
         *cosl = srt;
         *sinl = crt;
-        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
+        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
     } else {
         *cosr = crt;
         *sinr = srt;
         *cosl = clt;
         *sinl = slt;
-        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
+        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
     }
     if (gmax)
         tsign = sign(ONE, *sinr) * sign(ONE, *cosl) * sign(ONE, g);
-- 
2.43.0


From b351b3ba02793854c092e9b5fa0eb25825b3eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 061/245] fix: Golub-Kahan SVD wrote past operands and broke
 singular matrices with zero diagonal

---
 src/lapack/bdsvd_gr.c | 56 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index f4f4572..e277503 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -113,6 +113,54 @@ DTYPE compute_bsvd_shift(DTYPE e, DTYPE f, DTYPE g, DTYPE h)
 
 
 
+/*
+ * \brief Deflate zero diagonal element D[k] of bidiagonal block ip:iq
+ *
+ * If element is not the last one of the block then row k is zeroed with rotations
+ * of rows (j, k), j = k+1..iq-1. The last element is handled by zeroing the last column
+ * with rotations of columns (j, k), j = k-1..ip.
+ */
+static
+void deflate_zero_diag(armas_dense_t * D, armas_dense_t * E,
+                       armas_dense_t * U, armas_dense_t * V,
+                       int k, int ip, int iq)
+{
+    DTYPE c, s, r, f, e;
+    int j;
+
+    if (k < iq - 1) {
+        f = armas_get_at_unsafe(E, k);
+        armas_set_at_unsafe(E, k, ZERO);
+        for (j = k + 1; j < iq && f != ZERO; j++) {
+            armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, j), f);
+            armas_set_at_unsafe(D, j, r);
+            if (j < iq - 1) {
+                e = armas_get_at_unsafe(E, j);
+                armas_set_at_unsafe(E, j, c * e);
+                f = -s * e;
+            }
+            if (U) {
+                armas_gvright(U, c, s, j, k, 0, U->rows);
+            }
+        }
+        return;
+    }
+    f = armas_get_at_unsafe(E, k - 1);
+    armas_set_at_unsafe(E, k - 1, ZERO);
+    for (j = k - 1; j >= ip && f != ZERO; j--) {
+        armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, j), f);
+        armas_set_at_unsafe(D, j, r);
+        if (j > ip) {
+            e = armas_get_at_unsafe(E, j - 1);
+            armas_set_at_unsafe(E, j - 1, c * e);
+            f = -s * e;
+        }
+        if (V) {
+            armas_gvleft(V, c, s, j, k, 0, V->cols);
+        }
+    }
+}
+
 /*
  * Golub-Kahan-Reisch SVD algorithm as described in
  *  - Hogben, Handbook of Linear Algebra 2007, 45.2 algorithm 1b,1c
@@ -123,7 +171,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
                   armas_dense_t * CS, DTYPE tol, armas_conf_t * conf)
 {
     int N, work, lc, i, n, nrot, ip, iq, zeros, saves;
-    DTYPE e0, e1, d0, d1, dp, c, s, r, ushift;
+    DTYPE e0, e1, d0, d1, dp, ushift;
     armas_dense_t sD, sE, Cr, Sr, Cl, Sl;
 
     EMPTY(sD);
@@ -169,11 +217,9 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         for (i = ip; i < iq; i++) {
             d0 = armas_get_at(D, i);
             if (d0 == 0.0) {
-                e1 = armas_get_at(E, i);
-                armas_gvcompute(&c, &s, &r, d0, e1);
-                armas_set_at_unsafe(D, i, r);
-                armas_set_at_unsafe(E, i, 0.0);
+                deflate_zero_diag(D, E, U, V, i, ip, iq);
                 zeros = 1;
+                break;
             }
         }
         if (zeros)
-- 
2.43.0


From 893a83fb47c7a69e9b4049fea5e45c7661ecf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 062/245] fix: Golub-Kahan SVD shift lost its accuracy with
 close singular values

---
 src/lapack/bdsvd_gr.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index e277503..5169949 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -99,16 +99,17 @@ int find_diagonal_blocks(int *ip, int *iq, armas_dense_t * D,
 static
 DTYPE compute_bsvd_shift(DTYPE e, DTYPE f, DTYPE g, DTYPE h)
 {
-    DTYPE e1, e2, a, b, c, T, D;
+    DTYPE a, b, c, d, r;
     a = f * f + e * e;
     b = g * f;
     c = h * h + g * g;
-    T = (a + c) / 2.0;
-    D = a * c - b * b;
-    armas_qdroots(&e1, &e2, 1.0, T, D);
-    if (ABS(e1) - c < ABS(e2) - c)
-        return e1;
-    return e2;
+    // eigenvalue of T closer to c; computed from the differences as values of
+    // the roots would lose half of digits if the eigenvalues are close.
+    d = (a - c) / 2.0;
+    r = HYPOT(d, b);
+    if (b == ZERO || r == ZERO)
+        return c;
+    return d < ZERO ? c + b * (b / (r - d)) : c - b * (b / (r + d));
 }
 
 
-- 
2.43.0


From f914c950a3934dfdbb046692303d0cc9a86f432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 063/245] fix: bdsvd shift ignored sign of the leading diagonal
 element

---
 src/lapack/bdsvd_dk.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 33c558d..ececaf6 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -292,19 +292,21 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             zero = 1;
         } else {
             if (forwards) {
-                d0 = ABS(armas_get_at_unsafe(D, ip));
+                d0 = armas_get_at_unsafe(D, ip);
                 d1 = armas_get_at_unsafe(D, iq - 2);
                 e1 = armas_get_at_unsafe(E, iq - 2);
                 dp = armas_get_at_unsafe(D, iq - 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             } else {
-                d0 = ABS(armas_get_at_unsafe(D, iq - 1));
+                d0 = armas_get_at_unsafe(D, iq - 1);
                 d1 = armas_get_at_unsafe(D, ip);
                 e1 = armas_get_at_unsafe(E, ip);
                 dp = armas_get_at_unsafe(D, ip + 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             }
-            if (d0 > ZERO)
+            // shift from zero element is not defined; do implicit zero shift QR
+            zero = 1;
+            if (d0 != ZERO)
                 zero = (ushift / d0) * (ushift / d0) <= EPS;
         }
 
-- 
2.43.0


From 6703473620eb6c3ab9593a1ef515a9d2ed562de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 064/245] fix: bdsvd with absolute tolerance used the smaller
 of the thresholds

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index ececaf6..c294fc9 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -145,7 +145,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
     estimate_sval(&slow, &shigh, D, E);
     if (conf->optflags & ARMAS_OABSTOL) {
         threshold = maxit * SAFEMIN;
-        if (tol * shigh < threshold)
+        if (tol * shigh > threshold)
             threshold = tol * shigh;
     } else {
         threshold = tol * slow;
-- 
2.43.0


From 7ecffcb128f7fb27fe012b5fa216b8d793e6d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 065/245] fix: svd of negative 1-by-1 matrix lost its sign

---
 src/lapack/svd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index b8d410e..b0e2694 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -98,6 +98,9 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                 if (V->rows == A->rows) {
                     armas_copy(V, A, conf);
                     armas_lqbuild_w(V, &tau, M, wb, conf);
+                    // no reflector in 1-by-1 matrix to hold the sign
+                    if (N == 1 && armas_get_unsafe(A, 0, 0) < ZERO)
+                        armas_set_unsafe(V, 0, 0, -ONE);
                 } else {
                     // V is N-by-N
                     armas_set_values(V, zeros, ARMAS_SYMM | ARMAS_UNIT);
-- 
2.43.0


From c823755aa14d8c97e175230a92b633a4c3ab1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 066/245] fix: bdsvd read past the empty off-diagonal vector

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index c294fc9..ba889cf 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -47,7 +47,7 @@ void estimate_sval(DTYPE * smin, DTYPE * smax, armas_dense_t * D,
     int k, N = armas_size(D);
 
     d1 = ABS(armas_get_at_unsafe(D, 0));
-    e1 = ABS(armas_get_at_unsafe(E, 0));
+    e1 = N > 1 ? ABS(armas_get_at_unsafe(E, 0)) : ZERO;
     e0 = e1;
     ssmax = d1 > e1 ? d1 : e1;
     mu = ssmin = d1;
-- 
2.43.0


From 0623bb21f7ac961a7cb76a700562059db9369a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:12 +0000
Subject: [PATCH 067/245] fix: bdsvd with absolute tolerance did not converge
 if diagonal has zero

---
 src/lapack/bdsvd_dk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index ba889cf..fe4fe79 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -287,8 +287,10 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                 }
             }
         }
-        // compute shift
-        if (!abstol && (N * tol * (slow / shigh)) <= MAX(EPS, 0.01 * tol)) {
+        // compute shift; zero diagonal element decouples the block and is found only
+        // with zero shift
+        if ((abstol && slow <= threshold) ||
+            (!abstol && (N * tol * (slow / shigh)) <= MAX(EPS, 0.01 * tol))) {
             zero = 1;
         } else {
             if (forwards) {
-- 
2.43.0


From c045c01c3f425bb753b3c299d13730b2f69a9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 068/245] fix: dqds did not converge when block decoupled by
 zero off-diagonal; read before its workspace

---
 src/lapack/dqds.c | 51 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index 4131ba9..000150d 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -535,13 +535,17 @@ int dqds_neglible(armas_dense_t * Z, int N, int ping, DTYPE sigma)
     //  e(n-2) neglible if
     //    old.e(n-2) <= eps^2*q(n-2) || e(n-2) <= eps^2*(sigma + q(n-1)*q(n)/(q(n)+e(n-1)))
 
+    qn = armas_get_unsafe(Z, qrow, N - 1);
+    if (N == 1) {
+        armas_set_unsafe(Z, 0, 0, qn + sigma);
+        return 1;
+    }
     en1 = armas_get_unsafe(Z, erow, N - 2);
     en1p = armas_get_unsafe(Z, eerow, N - 2);
-    qn = armas_get_unsafe(Z, qrow, N - 1);
     qn1 = armas_get_unsafe(Z, qrow, N - 2);
 
-    // deflate if N == 1 or if last E is neglibe --> 1 eigenvalue 
-    if (N == 1 || en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
+    // deflate if last E is neglibe --> 1 eigenvalue 
+    if (en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
         r1 = armas_get_unsafe(Z, qqrow, N - 1);
         //printf("..[neglible] deflate, 1 eigenvalue, k=%d, eig=%9.7f (%9.7f)\n",
         //       N-1, SQRT(qn+sigma), SQRT(r1+sigma));
@@ -669,6 +673,11 @@ int dqds_goodstep(DTYPE * ssum, armas_dense_t * Z, int N, int pp,
     nfail = 0;
     do {
         dqds_sweep(&dq, &de, &sq, &se, N - ncnt, tau, dmind);
+        if (dmind->dn != dmind->dn && tau != ZERO) {
+            // zero q and e give undefined values; retry with zero shift
+            tau = ZERO;
+            dqds_sweep(&dq, &de, &sq, &se, N - ncnt, tau, dmind);
+        }
         if (dmind->dmin < ZERO) {
             // failure here
             DTYPE en1 = armas_get_at_unsafe(&de, N - ncnt - 2);
@@ -717,6 +726,23 @@ int dqds_goodstep(DTYPE * ssum, armas_dense_t * Z, int N, int pp,
 }
 
 
+/*
+ * \brief Lower bound for the smallest eigenvalue of block, negated to mark new segment.
+ */
+static
+DTYPE dqds_new_dmin(armas_dense_t * Z, int ip, int iq)
+{
+    DTYPE qmin, emax;
+    int k;
+    qmin = armas_get_unsafe(Z, 0, iq - 1);
+    emax = ZERO;
+    for (k = iq - 1; k > ip; k--) {
+        qmin = MIN(qmin, armas_get_unsafe(Z, 0, k - 1));
+        emax = MAX(emax, armas_get_unsafe(Z, 2, k - 1));
+    }
+    return -MAX(ZERO, qmin - 2.0 * SQRT(qmin) * SQRT(emax));
+}
+
 /*
  * \brief Run DQDS on one segment
  */
@@ -725,7 +751,8 @@ int dqds_segment(armas_dense_t * Z, int N, DTYPE sigma, DTYPE dmin,
                    dmin_data_t * dmind, int level)
 {
     armas_dense_t sZ;
-    int ip, iq, ping, neigen, maxiter, niter;
+    DTYPE cterm;
+    int ip, iq, k, ping, neigen, maxiter, niter;
 
     //printf("\n** segment %d start [N=%d, sigma=%e, dmin=%e, qmax=%e, emin=%e] **\n",
     //     level, N, sigma, dmind->dmin, dmind->qmax, dmind->emin);
@@ -753,6 +780,22 @@ int dqds_segment(armas_dense_t * Z, int N, DTYPE sigma, DTYPE dmin,
             //printf("..[segment]: goodstep deflated %d values\n", neigen);
             iq -= neigen;
         }
+        if (ping == PING) {
+            // neglible e-value splits the segment; run trailing block separately
+            for (k = iq - 1; k > ip; k--) {
+                if (armas_get_unsafe(Z, 2, k - 1) > EPS2 * sigma)
+                    continue;
+                armas_submatrix(&sZ, Z, 0, k, Z->rows, iq - k);
+                cterm = dmind->cterm;
+                dmin = dqds_new_dmin(&sZ, 0, iq - k);
+                if (dqds_segment(&sZ, iq - k, sigma, dmin, dmind, level + 1) < 0) {
+                    return -N;
+                }
+                iq = k;
+                dmind->cterm = cterm;
+                dmind->dmin = dqds_new_dmin(Z, ip, iq);
+            }
+        }
 #if 0
         DTYPE emins[2], qmax;
         emins[ping] = dmind->emin;
-- 
2.43.0


From 12358268d1cfd477275659f3d2e663c59433d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 069/245] fix: bdsvd did shift that lost relative accuracy of
 the small singular values

---
 src/lapack/bdsvd_dk.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index fe4fe79..94b56e7 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -251,7 +251,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             }
             // if relative tolerance then criteria 1a.
             if (!abstol) {
-                mu = ABS(armas_get_at_unsafe(D, ip));
+                slow = mu = ABS(armas_get_at_unsafe(D, ip));
                 for (k = ip; k < iq - 1; k++) {
                     e0 = armas_get_at_unsafe(E, k);
                     if (ABS(e0) <= tol * mu) {
@@ -261,6 +261,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                     }
                     d0 = ABS(armas_get_at_unsafe(D, k + 1));
                     mu = d0 * (mu / (mu + ABS(e0)));
+                    slow = MIN(slow, mu);
                 }
             }
         } else {
@@ -274,7 +275,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             }
             // if relative tolerance then criteria 1b.
             if (!abstol) {
-                mu = ABS(armas_get_at_unsafe(D, iq - 1));
+                slow = mu = ABS(armas_get_at_unsafe(D, iq - 1));
                 for (k = iq - 1; k > ip; k--) {
                     e0 = armas_get_at_unsafe(E, k - 1);
                     if (ABS(e0) <= tol * mu) {
@@ -284,6 +285,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                     }
                     d0 = ABS(armas_get_at_unsafe(D, k - 1));
                     mu = d0 * (mu / (mu + ABS(e0)));
+                    slow = MIN(slow, mu);
                 }
             }
         }
-- 
2.43.0


From 275cdc9222846c80c6c9b1837fb31b99fa5fa887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 070/245] fix: Golub-Kahan SVD did not converge if values are
 tiny relative to the norm

---
 src/lapack/bdsvd_gr.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index 5169949..1861661 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -172,7 +172,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
                   armas_dense_t * CS, DTYPE tol, armas_conf_t * conf)
 {
     int N, work, lc, i, n, nrot, ip, iq, zeros, saves;
-    DTYPE e0, e1, d0, d1, dp, ushift;
+    DTYPE e0, e1, d0, d1, dp, ushift, small;
     armas_dense_t sD, sE, Cr, Sr, Cl, Sl;
 
     EMPTY(sD);
@@ -190,6 +190,18 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         saves = 1;
     }
 
+    // elements of this size or less are zeros relative to the norm of the matrix
+    small = ZERO;
+    for (i = 0; i < N; i++) {
+        d0 = ABS(armas_get_at_unsafe(D, i));
+        small = MAX(small, d0);
+        if (i < N - 1) {
+            e0 = ABS(armas_get_at_unsafe(E, i));
+            small = MAX(small, e0);
+        }
+    }
+    small *= EPS;
+
     ip = 0;
     iq = N;
     for (work = 1, n = 0; work && lc > 0; lc--, n++) {
@@ -201,7 +213,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
             d0 = armas_get_at_unsafe(D, i);
             d1 = armas_get_at_unsafe(D, i + 1);
             dp = ABS(d0) + ABS(d1);
-            if (ABS(e1) < tol * dp) {
+            if (ABS(e1) < tol * dp || ABS(e1) <= small) {
                 armas_set_at(E, i, 0.0);
             }
         }
@@ -217,7 +229,8 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         zeros = 0;
         for (i = ip; i < iq; i++) {
             d0 = armas_get_at(D, i);
-            if (d0 == 0.0) {
+            if (ABS(d0) <= small) {
+                armas_set_at(D, i, ZERO);
                 deflate_zero_diag(D, E, U, V, i, ip, iq);
                 zeros = 1;
                 break;
-- 
2.43.0


From 3ea8b75a64d887790a5f3895ea1d73428367cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 071/245] fix: dqds lost the shift when convergence was masked
 by negative value

---
 src/lapack/dqds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index 000150d..7e7efb2 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -688,8 +688,8 @@ int dqds_goodstep(DTYPE * ssum, armas_dense_t * Z, int N, int pp,
                 dmind->dmin = ZERO;
                 //printf("..[masked] dmin1 > %e, setting qn to zero.!\n",
                 //       dmind->dmin1);
-                // break out from loop
-                //break;
+                // break out from loop; tau is the shift of this transformation
+                break;
             }
 
             nfail++;
-- 
2.43.0


From 7984a9039f260bf57af0882e27769f707003f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 072/245] fix: bdsvd threshold below the underflow limit did
 not stop iteration

---
 src/lapack/bdsvd_dk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 94b56e7..d4c1d68 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -149,7 +149,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             threshold = tol * shigh;
     } else {
         threshold = tol * slow;
-        if (maxit * SAFEMIN < threshold)
+        if (maxit * SAFEMIN > threshold)
             threshold = maxit * SAFEMIN;
     }
 
-- 
2.43.0


From 068b95ac1c32e1ec26953709a4756eb0fdbb351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 073/245] fix: eigenvalue count was undefined for zero
 off-diagonal element

---
 src/lapack/trdbis.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 5a6fe2b..0ccdc35 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -77,11 +77,14 @@ static
 int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
 {
     int k, count = 0;
-    DTYPE d = ONE, bim1 = ZERO;
+    DTYPE d = ONE, b2 = ZERO;
 
     for (k = 0; k < armas_size(D); k++) {
-        d = (armas_get_at_unsafe(D, k) - x) - bim1 * bim1 / d;
-        bim1 = armas_get_at_unsafe(E, k);
+        d = (armas_get_at_unsafe(D, k) - x) - (b2 == ZERO ? ZERO : b2 / d);
+        if (k < armas_size(D) - 1) {
+            b2 = armas_get_at_unsafe(E, k);
+            b2 *= b2;
+        }
         count += signbit(d) ? 1 : 0;
     }
     return count;
-- 
2.43.0


From ac7da4b024ee4b079f869a660358181e15a95909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 074/245] fix: trdbisect did not compute the eigenvalue of
 1-by-1 matrix

---
 src/lapack/trdbis.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 0ccdc35..8a3ce5e 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -235,8 +235,12 @@ int armas_trdbisect(armas_dense_t * Y,
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(D) == 0 || armas_size(E) == 0)
+    if (armas_size(D) == 0)
         return 0;
+    if (armas_size(E) != armas_size(D) - 1) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     compute_gerschgorin(&gleft, &gright, D, E);
     bnorm = MAX(ABS(gleft), ABS(gright));
-- 
2.43.0


From 356bede8863ce6a4f253dd47b3ed6443240d369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 075/245] fix: trdbisect wrote selected eigenvalues outside of
 the result vector

---
 src/lapack/trdbis.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 8a3ce5e..3a08d94 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -268,12 +268,16 @@ int armas_trdbisect(armas_dense_t * Y,
         last = armas_size(D);
     }
 
+    if (last - first > armas_size(Y)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     for (int k = first; k < last; k++) {
         eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau);
         if (isnan(eigen)) {
             return -1;
         }
-        armas_set_unsafe(Y, k, 0, eigen);
+        armas_set_at_unsafe(Y, k - first, eigen);
         gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
     }
     return 0;
-- 
2.43.0


From fa46132cd7e90d3eaec75b39baeb061cf799f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 076/245] fix: eigen_sym accepted operands of wrong size

---
 src/lapack/evd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 8a92d07..f341408 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -147,7 +147,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols && armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From c31008329cbf299c897903eda38c4a33d3de45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 077/245] fix: eigen_sym_selected failed on small matrices and
 overran small workspace

---
 src/lapack/evd.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index f341408..2b269d5 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -277,7 +277,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
                                  armas_wbuf_t * wb, armas_conf_t * conf)
 {
     armas_dense_t sD, sE, tau;
-    size_t wsz, wpos;
+    size_t wpos = 0;
     DTYPE *buf;
     int ioff, N, err;
 
@@ -290,9 +290,11 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
     }
     N = A->rows;
     if (wb && wb->bytes == 0) {
-        if ((err = armas_trdreduce_w(A, ARMAS_NIL, flags, wb, conf)) < 0)
-            return err;
-        wb->bytes += N * sizeof(DTYPE);
+        if (N > 2) {
+            if ((err = armas_trdreduce_w(A, ARMAS_NIL, flags, wb, conf)) < 0)
+                return err;
+            wb->bytes += N * sizeof(DTYPE);
+        }
         return 0;
     }
 
@@ -301,7 +303,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb && (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
+    if (N > 2 && (!wb || armas_wbytes(wb) < 2 * N * sizeof(DTYPE))) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -309,10 +311,9 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
     if (!(flags & (ARMAS_UPPER | ARMAS_LOWER)))
         flags |= ARMAS_LOWER;
 
-    wpos = armas_wpos(wb);
-
     ioff = flags & ARMAS_LOWER ? -1 : 1;
     if (N > 2) {
+        wpos = armas_wpos(wb);
         buf = (DTYPE *) armas_wreserve(wb, N, sizeof(DTYPE));
         armas_make(&tau, N, 1, N, buf);
 
@@ -321,9 +322,8 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
             armas_wsetpos(wb, wpos);
             return err;
         }
-
+        armas_wsetpos(wb, wpos);
     }
-    armas_wsetpos(wb, wpos);
 
     armas_diag(&sD, A, 0);
     armas_diag(&sE, A, ioff);
-- 
2.43.0


From acf43eb234dca310a942622348b8f07f9b1cac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 078/245] fix: trdsec_eigen dereferenced null matrix of deltas

---
 src/lapack/trdsec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 8d9cd9c..57eb8c2 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -734,6 +734,8 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!Qd)
+        Qd = Q;
     if (Q->rows != Q->cols || Qd->rows != Qd->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
@@ -743,7 +745,7 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
         return -1;
     }
 
-    if (!Qd || Q == Qd) {
+    if (Q == Qd) {
         trdsec_eigenbuild_inplace(Q, v, conf);
     } else {
         trdsec_eigen2_build(Q, v, Qd, conf);
-- 
2.43.0


From 4267a9b6e8a048a3a9810037e379c8eea45b1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 079/245] fix: trdsec_solve_vec lost signs of the rank-1 update
 vector

---
 src/lapack/trdsec.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 57eb8c2..4828bf1 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -463,8 +463,10 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
 /*
  * \brief Compute updated rank-1 update vector with precomputed deltas
  *
- * \param[out] z
+ * \param[out] v
  *      On exit, the updated rank-1 vector
+ * \param[in] z
+ *      Original rank-1 vector, determines the signs of the updated vector
  * \param[in] Q
  *      Precomputed deltas
  * \param[in] d
@@ -475,18 +477,20 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
  * For details see (3). Computation as equation 3.3 in (3)
  */
 static inline
-void trdsec_update_vec_delta(armas_dense_t * z, armas_dense_t * Q,
-                             armas_dense_t * d, DTYPE rho)
+void trdsec_update_vec_delta(armas_dense_t * v, armas_dense_t * z,
+                             armas_dense_t * Q, armas_dense_t * d, DTYPE rho)
 {
     armas_dense_t delta;
     DTYPE zk;
     int i;
     EMPTY(delta);
 
-    for (i = 0; i < armas_size(z); i++) {
+    for (i = 0; i < armas_size(v); i++) {
         armas_column(&delta, Q, i);
         update_vec_delta(&zk, d, &delta, i, rho);
-        armas_set_at_unsafe(z, i, zk);
+        if (armas_get_at_unsafe(z, i) < ZERO)
+            zk = -zk;
+        armas_set_at_unsafe(v, i, zk);
     }
 }
 
@@ -702,7 +706,7 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         armas_set_at_unsafe(y, i, dlam);
     }
     if (err == 0) {
-        trdsec_update_vec_delta(v, Qd, d, rho);
+        trdsec_update_vec_delta(v, z, Qd, d, rho);
     } else {
         conf->error = ARMAS_ECONVERGE;
     }
-- 
2.43.0


From 2813e64ed2cda3f88c211d796aae92e6a78ac6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 080/245] fix: eigenvalues of 2-by-2 diagonal matrix were not a
 number

---
 src/lapack/aux.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index 6790297..52e9b05 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -341,6 +341,11 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
     amca = ABS(a - c);
     Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
     *z1 = HALF * Zt;
+    if (Zt == ZERO) {
+        // zero matrix
+        *z2 = ZERO;
+        return;
+    }
     *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
 }
 
@@ -381,14 +386,33 @@ void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
     b2a = ABS(b + b);
     T = a + c;
     amca = ABS(a - c);
+    if (b == ZERO) {
+        // diagonal matrix, eigenvectors are unit vectors
+        *z1 = acmax;
+        *z2 = acmin;
+        *cs = acmax == a ? ONE : ZERO;
+        *sn = acmax == a ? ZERO : ONE;
+        return;
+    }
     Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
     *z1 = HALF * Zt;
     *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
 
-    // these should be thought out for cancellation effects....
-    ht = HYPOT(1.0, (*z1 - a) / b);
-    *cs = 1.0 / ht;
-    *sn = (*z1 - a) / (b * ht);
+    // eigenvector of z1 is (z1 - c, b) or (b, z1 - a); compute z1 - c and
+    // z1 - a without cancellation.
+    if ((Zt > ZERO) == (a > c)) {
+        // 2*(z1 - c) = (a - c) +/- hypot(a - c, 2b)
+        T = TWO * b / ((a - c) + COPYSIGN(HYPOT(amca, b2a), Zt));
+        ht = HYPOT(ONE, T);
+        *cs = ONE / ht;
+        *sn = T / ht;
+    } else {
+        // 2*(z1 - a) = (c - a) +/- hypot(a - c, 2b)
+        T = TWO * b / ((c - a) + COPYSIGN(HYPOT(amca, b2a), Zt));
+        ht = HYPOT(ONE, T);
+        *cs = T / ht;
+        *sn = ONE / ht;
+    }
 }
 //! @}
 #else
-- 
2.43.0


From ffd0b1b8c2409916b6bc4fa4c868495582e7a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 081/245] fix: eigenvalues of 2-by-2 symmetric matrix were not
 in increasing order

---
 src/lapack/evd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 2b269d5..a6d0a3c 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -57,6 +57,9 @@ int eigen_sym_small(armas_dense_t * D, armas_dense_t * A,
         armas_set_unsafe(A, 1, 0, ZERO);
         armas_gvright(A, cs, sn, 0, 1, 0, A->rows);
     }
+    // eigenvalues in increasing order
+    armas_sort_eigenvec(D, (flags & ARMAS_WANTV) ? A : ARMAS_NIL, ARMAS_NIL,
+                        ARMAS_NIL, ARMAS_ASC);
     return 0;
 }
 
-- 
2.43.0


From ccbffe5d8f78aba4a4d839db81bee33f70adcf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 082/245] fix: trdeigen did not deflate zero off-diagonal
 between zero diagonals

---
 src/lapack/trdevd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trdevd.c b/src/lapack/trdevd.c
index 045a9ed..a45b401 100644
--- a/src/lapack/trdevd.c
+++ b/src/lapack/trdevd.c
@@ -66,7 +66,7 @@ int armas_trdevd_qr(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             e1 = ABS(armas_get_at_unsafe(E, k - 1));
             d1 = ABS(armas_get_at_unsafe(D, k - 1));
-            if (e1 < tol * (d0 + d1)) {
+            if (e1 <= tol * (d0 + d1)) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom value;
-- 
2.43.0


From 36f77f8580dff709c6e9bbbe057d2f0d62097a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 083/245] fix: trdsec root finder read outside of vectors of
 one element

---
 src/lapack/trdsec.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 4828bf1..57181b5 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -331,6 +331,13 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
     N = armas_size(D);
     tau = ZERO;
 
+    if (N == 1) {
+        tau = rho * armas_get_at_unsafe(Z, 0) * armas_get_at_unsafe(Z, 0);
+        armas_set_at_unsafe(delta, 0, -tau);
+        *lambda = armas_get_at_unsafe(D, 0) + tau;
+        return 0;
+    }
+
     // compute initial value at (D[k] + D[k+1])/2
     // note: D[i] - (D[k] + D[k+1])/2 == D[i] - D[k] - (D[k+1] - D[k])/2.0
     iK = trdsec_initial_guess(&tau, &tau_low,
-- 
2.43.0


From 54ac4c1b5dd4af7521b862a5ed197ccdb25ee7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 084/245] fix: trdsec root finder used wrong pole for the last
 root

---
 src/lapack/trdsec.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 57181b5..4407b45 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -353,11 +353,7 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
     } else {
         iK1 = index;
         delta_k1 = armas_get_at_unsafe(delta, iK1);
-        if (index < N - 1) {
-            delta_k = armas_get_at_unsafe(delta, iK);
-        } else {
-            delta_k = tau;
-        }
+        delta_k = armas_get_at_unsafe(delta, iK);
     }
     eta = ONE;
     eta0 = ONE;
@@ -394,13 +390,24 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         }
 
         A = F - delta_k * dG - delta_k1 * dH;
+        if (index == N - 1)
+            A = ABS(A);
         B = (delta_k + delta_k1) * F - delta_k * delta_k1 * (dH + dG);
         C = delta_k * delta_k1 * F;
         // compute discriminant of A*x^2 - 2B*x + C with extra precission
         B /= 2.0;
         armas_discriminant(&dd, A, B, C);
         eta0 = eta;
-        if (B > 0) {
+        if (index == N - 1) {
+            // last root is above of all the poles
+            if (A == ZERO) {
+                eta = tau_high - tau;
+            } else if (B >= ZERO) {
+                eta = (B + SQRT(dd)) / A;
+            } else {
+                eta = C / (B - SQRT(dd));
+            }
+        } else if (B > 0) {
             eta = C / (B + SQRT(dd));
         } else {
             eta = (B - SQRT(dd)) / A;
-- 
2.43.0


From 5817c73b4a560833ac17edcb641a6821b0d31c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 085/245] fix: trdsec deltas lost accuracy when compiled with
 -ffast-math

---
 src/lapack/trdsec.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 4407b45..2251dca 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -91,11 +91,13 @@ static inline
 void compute_delta(armas_dense_t * delta, armas_dense_t * D, int ik,
                    DTYPE tau)
 {
-    DTYPE d0, d1;
+    DTYPE d0;
+    // volatile forbids reassociation to D(j) - (D(K) + tau)
+    volatile DTYPE d1;
     d0 = armas_get_at_unsafe(D, ik);
     for (int i = 0; i < armas_size(D); i++) {
-        d1 = (armas_get_at_unsafe(D, i) - d0) - tau;
-        armas_set_at_unsafe(delta, i, d1);
+        d1 = armas_get_at_unsafe(D, i) - d0;
+        armas_set_at_unsafe(delta, i, d1 - tau);
     }
     armas_set_at_unsafe(delta, ik, -tau);
 }
-- 
2.43.0


From fef9fdba0bdb9282abb757e7a93e2294ca1280d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 086/245] fix: trdbisect failed on zero matrix

---
 src/lapack/trdbis.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 3a08d94..a3cf49e 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -131,7 +131,11 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
     bnorm = ABS(gl) > ABS(gu) ? ABS(gl) : ABS(gu);
     *glow = gl - bnorm * (n * EPS) * 2.0 - 4.2 * pivmin;
     *gup = gu + bnorm * (n * EPS) * 2.0 + 2.1 * pivmin;
-
+    if (bnorm < SAFEMIN / EPS) {
+        // interval must not be empty on zero matrix
+        *glow -= SAFEMIN / EPS;
+        *gup += SAFEMIN / EPS;
+    }
 }
 
 
@@ -243,7 +247,7 @@ int armas_trdbisect(armas_dense_t * Y,
     }
 
     compute_gerschgorin(&gleft, &gright, D, E);
-    bnorm = MAX(ABS(gleft), ABS(gright));
+    bnorm = MAX(ABS(gleft), ABS(gright));   // at least SAFEMIN/EPS
     tau = params ? params->tau : 0.0;
     if (tau < bnorm * EPS)
         tau = bnorm * EPS * 2.1;
-- 
2.43.0


From 6dffbb5c296ec840de2f7eb45245bc762b2d40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 087/245] fix: trdbisect stored close eigenvalues out of order

---
 src/lapack/trdbis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index a3cf49e..ec7566e 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -281,6 +281,9 @@ int armas_trdbisect(armas_dense_t * Y,
         if (isnan(eigen)) {
             return -1;
         }
+        // keep increasing order when difference is less than the precision
+        if (k > first && eigen < armas_get_at_unsafe(Y, k - first - 1))
+            eigen = armas_get_at_unsafe(Y, k - first - 1);
         armas_set_at_unsafe(Y, k - first, eigen);
         gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
     }
-- 
2.43.0


From 5b378a2d6a8a7459eed82ae2ef4c2f3a33b4bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 088/245] fix: secular equation solver did not converge or
 stopped early

---
 src/lapack/trdsec.c | 73 +++++++++++----------------------------------
 1 file changed, 18 insertions(+), 55 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 2251dca..808d1e3 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -102,20 +102,6 @@ void compute_delta(armas_dense_t * delta, armas_dense_t * D, int ik,
     armas_set_at_unsafe(delta, ik, -tau);
 }
 
-/*
- * Compute delta(j) = delta(j) - eta
- */
-static inline
-void update_delta(armas_dense_t * delta, DTYPE eta)
-{
-    int ix;
-    ix = delta->rows == 1 ? delta->step : 1;
-    for (int i = 0; i < armas_size(delta); i++) {
-        delta->elems[i*ix] -= eta;
-    }
-}
-
-
 /*
  * Secular function
  *      f(x) = 1/r + sum k; z_k^2/(d_k - x)  k = 1 .. n
@@ -192,8 +178,7 @@ void update_delta(armas_dense_t * delta, DTYPE eta)
 /*
  * Stopping criterias:
  * a.  |eta| <= c *__eps * min(|d_k - y|, |d_k1 - y|)               (1) eq.48
- * b.  eta^2 <= __eps * min(|d_k - y|, |d_k1 - y|)*(|eta0|-|eta|)   (1) eq.49
- * c.  |F|   <= N * __eps * (1/rho + |H+G|)                         (1) eq.50/(3) eq 3.4
+ * b.  |F|   <= N * __eps * (1/rho + |H| + |G|)                     (1) eq.50/(3) eq 3.4
  */
 
 /*
@@ -299,7 +284,7 @@ int trdsec_initial_guess(DTYPE * tau, DTYPE * tau_low, DTYPE * tau_high,
         *tau_high = mpoint;
     }
     compute_delta(delta, D, N - 1, *tau);
-    return index - 1;
+    return N - 1;
 }
 
 /*
@@ -326,8 +311,8 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
 {
     int iK, iK1, niter, maxiter, N;
 
-    DTYPE F, dF, Fa, A, B, C, tau, tau_low, tau_high, eta, eta0, dd, edif;
-    DTYPE delta_k, delta_k1, da_k, da_k1;
+    DTYPE F, dF, Fa, A, B, C, tau, tau_low, tau_high, eta, dd;
+    DTYPE delta_k, delta_k1;
     DTYPE H, dH, G, dG;
 
     N = armas_size(D);
@@ -344,45 +329,30 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
     // note: D[i] - (D[k] + D[k+1])/2 == D[i] - D[k] - (D[k+1] - D[k])/2.0
     iK = trdsec_initial_guess(&tau, &tau_low,
                               &tau_high, D, Z, delta, index, rho);
-    if (iK == index) {
-        iK1 = index + 1;
-        delta_k = armas_get_at_unsafe(delta, iK);
-        if (index < N - 1) {
-            delta_k1 = armas_get_at_unsafe(delta, iK1);
-        } else {
-            delta_k1 = tau;
-        }
-    } else {
-        iK1 = index;
-        delta_k1 = armas_get_at_unsafe(delta, iK1);
-        delta_k = armas_get_at_unsafe(delta, iK);
-    }
-    eta = ONE;
-    eta0 = ONE;
-    maxiter = 20;
+    // poles enclosing the root; last root is approximated with last two poles
+    iK1 = index < N - 1 ? index : N - 2;
+    eta = ZERO;
+    maxiter = 100;
     for (niter = 0; niter < maxiter; niter++) {
+        delta_k = armas_get_at_unsafe(delta, iK1);
+        delta_k1 = armas_get_at_unsafe(delta, iK1 + 1);
 
         G = ZERO;
         dG = ZERO;
-        rational_forward(&G, &dG, Z, delta, 0, iK + 1);
+        rational_forward(&G, &dG, Z, delta, 0, iK1 + 1);
         H = ZERO;
         dH = ZERO;
-        rational_backward(&H, &dH, Z, delta, iK + 1, N);
+        rational_backward(&H, &dH, Z, delta, iK1 + 1, N);
         F = 1 / rho + G + H;
         dF = dG + dH;
-        Fa = 1 / rho + ABS(G + H);
-
-        da_k = ABS(delta_k);
-        da_k1 = ABS(delta_k1);
-
-        edif = (da_k < da_k1 ? da_k : da_k1) * (ABS(eta0) - ABS(eta));
+        Fa = 1 / rho + ABS(G) + ABS(H);
 
         // stopping criterion from (1) eq 50 and (3) eq 3.4
-        if (ABS(F) < N * EPS * Fa) {
+        if (ABS(F) <= IMAX(N, 8) * EPS * Fa) {
             break;
         }
-        // stopping criterion from (1), eq 49
-        if (eta * eta < EPS * edif) {
+        // stopping criterion from (1), eq 48
+        if (niter > 0 && ABS(eta) <= 2 * EPS * ABS(tau)) {
             break;
         }
         if (F < ZERO) {
@@ -399,7 +369,6 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         // compute discriminant of A*x^2 - 2B*x + C with extra precission
         B /= 2.0;
         armas_discriminant(&dd, A, B, C);
-        eta0 = eta;
         if (index == N - 1) {
             // last root is above of all the poles
             if (A == ZERO) {
@@ -429,16 +398,10 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         }
 
         tau += eta;
-        delta_k -= eta;
-        delta_k1 -= eta;
-        update_delta(delta, eta);
+        compute_delta(delta, D, iK, tau);
     }
 
-    if (index == N - 1) {
-        *lambda = armas_get_at_unsafe(D, N - 1) + tau;
-    } else {
-        *lambda = armas_get_at_unsafe(D, iK) + tau;
-    }
+    *lambda = armas_get_at_unsafe(D, iK) + tau;
     return niter == maxiter ? -niter : niter;
 }
 
-- 
2.43.0


From f83190295bf1ca9a9ea2b9a17b8535cbf5693b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 089/245] fix: pivoting symmetric matrix wrote outside of
 matrix on zero pivot index

---
 src/base/pivot.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/pivot.c b/src/base/pivot.c
index 342c7e7..fa07917 100644
--- a/src/base/pivot.c
+++ b/src/base/pivot.c
@@ -307,7 +307,7 @@ int armas_pivot(armas_dense_t * A, armas_pivot_t * P, unsigned int flags,
         if (dir == ARMAS_PIVOT_FORWARD) {
             for (k = 0; k < P->npivots; k++) {
                 kp = armas_pivot_get(P, k);
-                if (kp - 1 == k)
+                if (kp <= 0 || kp - 1 == k)
                     continue;
                 apply_pivot_upper(A, k, kp - 1, conf);
             }
@@ -315,7 +315,7 @@ int armas_pivot(armas_dense_t * A, armas_pivot_t * P, unsigned int flags,
             // row/col index and pivot index may not coincide (npivots < n(A))
             for (nk = A->rows - 1, k = P->npivots - 1; k >= 0; k--, nk--) {
                 kp = armas_pivot_get(P, k);
-                if (kp - 1 == nk)
+                if (kp <= 0 || kp - 1 == nk)
                     continue;
                 apply_pivot_upper(A, kp - 1, nk, conf);
             }
@@ -331,7 +331,7 @@ int armas_pivot(armas_dense_t * A, armas_pivot_t * P, unsigned int flags,
             // pivot index k and row/col index coincide
             for (k = 0; k < P->npivots; k++) {
                 kp = armas_pivot_get(P, k);
-                if (kp - 1 == k)
+                if (kp <= 0 || kp - 1 == k)
                     continue;
                 apply_pivot_lower(A, k, kp - 1, conf);
             }
@@ -340,7 +340,7 @@ int armas_pivot(armas_dense_t * A, armas_pivot_t * P, unsigned int flags,
             // to current row number nk or pivot index k
             for (nk = A->rows - 1, k = P->npivots - 1; k >= 0; k--, nk--) {
                 kp = armas_pivot_get(P, k);
-                if (kp - 1 == nk)
+                if (kp <= 0 || kp - 1 == nk)
                     continue;
                 apply_pivot_lower(A, kp - 1, nk, conf);
             }
-- 
2.43.0


From 3dcbe7b1a28e0beceb55ae4a1017619287f966a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 090/245] fix: abs_sort_vec replaced elements with their
 absolute values

---
 src/lapack/sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..d18f1b4 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -47,10 +47,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From 03db011fb9232b519e493dcf8278fb448b69dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 091/245] fix: quicksort did not terminate on duplicate
 elements

---
 src/lapack/qsort.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..99f2322 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,14 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +114,14 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From 11e03b7e2e2c5fccb24cb28df40aae1b7612b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 092/245] fix: extended precision symmetric rank-1 update used
 misaligned vector and wrote past the column

The row/column of the triangle starting at the diagonal was updated with
the whole source vector instead of the part starting at the same index.
---
 src/eblas/syr_ext.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index 1042090..b3cd273 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -38,7 +38,7 @@ int armas_ext_mvupdate_trm_unsafe(
     int flags)
 {
     DTYPE p, r, xk;
-    armas_dense_t a0;
+    armas_dense_t a0, z0;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
@@ -46,7 +46,8 @@ int armas_ext_mvupdate_trm_unsafe(
             armas_submatrix_unsafe(&a0, A, i, i, 1, A->cols-i);
             xk = armas_get_at(X, i);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, Y);
+            armas_subvector_unsafe(&z0, Y, i, A->cols-i);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &z0);
         }
         break;
     case ARMAS_LOWER:
@@ -55,7 +56,8 @@ int armas_ext_mvupdate_trm_unsafe(
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
             xk = armas_get_at(Y, j);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, X);
+            armas_subvector_unsafe(&z0, X, j, A->rows-j);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &z0);
         }
         break;
     }
-- 
2.43.0


From b0f83a2ddaafd253fb4ddeb8d9093dac3538ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 093/245] fix: extended precision symmetric rank-2 update with
 LOWER wrote the upper triangle

---
 src/eblas/syr2_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..29f6c3f 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -68,7 +68,7 @@ int armas_ext_mvupdate2_sym_unsafe(
     case ARMAS_LOWER:
     default:
         for (j = 0; j < A->cols; ++j) {
-            for (i = 0; i < j+1; ++i) {
+            for (i = j; i < A->rows; ++i) {
                 xk = armas_get_at_unsafe(X, i);
                 yk = armas_get_at_unsafe(Y, j);
                 // p + r = X[i]*Y[j]
-- 
2.43.0


From a5f25ce951a4cfd47255139207a4cb534c843cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 094/245] fix: extended precision symmetric rank-2 update lost
 rounding error of second product

---
 src/eblas/syr2_ext.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index 29f6c3f..fc6bac5 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -53,10 +53,10 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c1 += alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
-                q0 += c0;
+                q0 += c0 + c1;
 
                 // p1 + q1 = beta*A[i,j]
                 twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
@@ -83,10 +83,10 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c1 += alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
-                q0 += c0;
+                q0 += c0 + c1;
 
                 // p1 + q1 = beta*A[i,j]
                 twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
-- 
2.43.0


From d37af32dfefaa05a79fd1686483158a1f10b99a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 095/245] fix: scaled extended precision sum dropped the high
 order part

---
 src/eblas/asum_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/asum_ext.c b/src/eblas/asum_ext.c
index 8876a82..efa780d 100644
--- a/src/eblas/asum_ext.c
+++ b/src/eblas/asum_ext.c
@@ -155,7 +155,7 @@ int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags,
 
     if (alpha != ONE) {
         twoprod(result, &q, alpha, h);
-        *result = q + alpha*l;
+        *result += q + alpha*l;
     } else {
         *result = h + l;
     }
-- 
2.43.0


From ee6034241222d4b2cd5bd124ab82372942fc74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 096/245] fix: extended precision dot product accumulated with
 unordered fast two-sum

---
 src/eblas/dot_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ca430b7..ffac388 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -99,7 +99,7 @@ void armas_ext_adot_unsafe(
     }
 
     twoprod(&h0, &p0, s0, alpha);
-    fastsum(&s0, &z0, *h, h0);
+    twosum(&s0, &z0, *h, h0);
     c0 = *l + p0 + alpha*c0 + z0;
     // protect against  h < l
     fastsum(h, l, s0, c0);
-- 
2.43.0


From 3298e452740e097075c8336afa549fa07911d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 097/245] fix: extended precision symmetric matrix-vector
 product rounded intermediate results

The inner product was rounded to working precision before scaling and
the rounding error of the final sum was computed but not used.
---
 src/eblas/symv_ext.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eblas/symv_ext.c b/src/eblas/symv_ext.c
index a8eac3d..4402831 100644
--- a/src/eblas/symv_ext.c
+++ b/src/eblas/symv_ext.c
@@ -79,14 +79,15 @@ int armas_ext_mvmult_sym_unsafe(
                 twosum(&y0, &c0, y0, x0);
                 s0 += c0 + p0;
             }
-            twoprod(&y0, &p0, y0+s0, alpha);
+            twoprod(&y0, &p0, y0, alpha);
+            p0 += alpha*s0;
             // here: y0 + p0 = alpha*sum(A_i,j*x_j)
             twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
             // here: x0 + s0 = beta*y[i]
             p0 += s0;
             twosum(&y0, &s0, x0, y0);
 
-            Y->elems[(i+0)*yinc] = y0 + p0;
+            Y->elems[(i+0)*yinc] = y0 + (p0 + s0);
         }
         return 0;
     }
@@ -108,14 +109,15 @@ int armas_ext_mvmult_sym_unsafe(
             twosum(&y0, &c0, y0, x0);
             s0 += c0 + p0;
         }
-        twoprod(&y0, &p0, y0+s0, alpha);
+        twoprod(&y0, &p0, y0, alpha);
+        p0 += alpha*s0;
         // here: y_i + p_i = alpha*sum(A_i,j*x_j)
         twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
         // here: x_i + s_i = beta*y_i
         p0 += s0;
         twosum(&y0, &s0, x0, y0);
 
-        Y->elems[(i+0)*yinc] = y0 + p0;
+        Y->elems[(i+0)*yinc] = y0 + (p0 + s0);
     }
     return 0;
 }
-- 
2.43.0


From 744fb30cb6f92782cec33f68fea1d854c1d7f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 098/245] fix: extended precision triangular vector solve read
 uninitialized workspace

The correction vector is output of the solver, its initial contents come
from caller's work buffer.
---
 src/eblas/trsv_ext.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index eaea513..d1b88b2 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -49,7 +49,6 @@ void trsv_ext_unb_ll(
 
     s0 = armas_get_at_unsafe(X, 0);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, 0);
     if (!unit) {
         ak = armas_get_unsafe(Ac, 0, 0);
         approx_twodiv(&p0, &r0, s0, ak);
@@ -107,7 +106,6 @@ void trsv_ext_unb_llt(
 
     s0 = armas_get_at_unsafe(X, Ac->cols-1);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, Ac->cols-1);
     if (!unit) {
         ak = armas_get_unsafe(Ac, Ac->cols - 1, Ac->cols - 1);
         approx_twodiv(&p0, &r0, s0, ak);
@@ -164,7 +162,6 @@ void trsv_ext_unb_lu(
 
     s0 = armas_get_at_unsafe(X, Ac->cols-1);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, Ac->cols-1);
     if (!unit) {
         ak = armas_get_unsafe(Ac, Ac->cols-1, Ac->cols-1);
         approx_twodiv(&p0, &r0, s0, ak);
@@ -223,7 +220,6 @@ void trsv_ext_unb_lut(
 
     s0 = armas_get_at_unsafe(X, 0);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, 0);
     if (!unit) {
         ak = armas_get_unsafe(Ac, 0, 0);
         approx_twodiv(&p0, &r0, s0, ak);
-- 
2.43.0


From 74ce9eca816836cd68e43a2547d550cddab3d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 099/245] fix: extended precision unit upper triangular solve
 counted corrections twice

---
 src/eblas/trsv_ext.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index d1b88b2..b6f34d0 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -158,7 +158,7 @@ void trsv_ext_unb_lu(
 {
     register int i;
     armas_dense_t x0, dx0, a0;
-    DTYPE s0, u0, p0, r0, c0, ak, xk;
+    DTYPE s0, u0, p0, r0, ak, xk;
 
     s0 = armas_get_at_unsafe(X, Ac->cols-1);
     twoprod(&s0, &u0, s0, alpha);
@@ -181,7 +181,6 @@ void trsv_ext_unb_lu(
         armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &x0, &dx0, &a0);
 
         if (unit) {
-            fastsum(&s0, &c0, s0, u0);
             armas_set_at_unsafe(X,  i, s0);
             armas_set_at_unsafe(dX, i, u0);
             continue;
-- 
2.43.0


From 765dbffe0fdd348cb792a9255aace00e1bba28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 100/245] fix: extended precision triangular vector solve
 reported small workspace as memory error

---
 src/eblas/trsv_ext.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index b6f34d0..b94386f 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -325,8 +325,8 @@ int armas_ext_mvsolve_trm_w(
         return 0;
     }
     if (armas_wbytes(wb) < sizeof(DTYPE)*N) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
     armas_make(&dX, A->cols, 1, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_mvsolve_trm_unsafe(x, &dX, alpha, A, flags);
-- 
2.43.0


From fe567b56ae2e04d599c00cdfffe14e4be61b90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 101/245] fix: extended precision solve from right mixed row
 and column of the correction block

---
 src/eblas/trsm_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..3e1d2b7 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -384,7 +384,7 @@ void solve_ext_ru_rlt(
 
             bk = armas_get_unsafe(Bc, j, i);
             twoprod(&s0, &u0, alpha, bk);
-            u0 += alpha * armas_get_unsafe(dB, i, j);
+            u0 += alpha * armas_get_unsafe(dB, j, i);
             armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &b0, &d0, &a0);
 
             if (!unit) {
-- 
2.43.0


From 8020fb828bbc58a515538ba2c9ac2b2be64c2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 102/245] fix: blocked extended precision solve from right
 transposed the wrong off-diagonal block

---
 src/eblas/trsm_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index 3e1d2b7..de34ae6 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -570,7 +570,7 @@ void solve_ext_blk_rut_rl(
 
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
-    int mflags = flags & ARMAS_TRANS ? 0 : ARMAS_TRANSB;
+    int mflags = flags & ARMAS_TRANS ? ARMAS_TRANSB : 0;
     int NB = cache->NB;
 
     nI = A->cols < NB ? A->cols : NB;
-- 
2.43.0


From 7d41eb1922677608fcb54e188acfa2a7fc7f0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 103/245] fix: blocked extended precision triangular solve
 added corrections twice

Caller merges the corrections to the result.
---
 src/eblas/trsm_ext.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index de34ae6..c230374 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -185,7 +185,6 @@ void solve_ext_blk_lu_llt(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lu_llt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -325,7 +324,6 @@ void solve_ext_blk_lut_ll(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lut_ll(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -462,7 +460,6 @@ void solve_ext_blk_ru_rlt(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_ru_rlt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(&B1, &dB1);
 }
 
 /*
@@ -603,7 +600,6 @@ void solve_ext_blk_rut_rl(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_rut_rl(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
-- 
2.43.0


From e889285110e0779539103ad713566e274e17a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 104/245] fix: extended precision triangular solve wrote past
 the workspace

The correction block for a panel was located with index of the panel in
the result even if workspace holds corrections of only one panel, and when
solving from right the workspace has one row for each row of the panel.
---
 src/eblas/trsm_ext.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index c230374..fcc9afb 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -632,10 +632,10 @@ void armas_ext_solve_trm_unb_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, dB->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0, cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0, cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -694,10 +694,10 @@ void armas_ext_solve_trm_blk_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, B->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0,  cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0,  cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -811,7 +811,10 @@ int armas_ext_solve_trm_w(
     }
     if (ncol > cache.NB)
         ncol = cache.NB;
-    armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    if (flags & ARMAS_RIGHT)
+        armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
+    else
+        armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
     return 0;
 }
-- 
2.43.0


From e1694600b03dfad71e247154d37a35a58fd63394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 105/245] fix: blocked extended precision triangular solve
 could exceed its cache buffer

The result panel and blocks of the triangular matrix are used as left and
right operands with different maximum sizes.
---
 src/eblas/trsm_ext.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index fcc9afb..97aad4e 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -154,7 +154,8 @@ void solve_ext_blk_lu_llt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = (flags & ARMAS_UPPER) != 0 ? 1 : 0;
     int mflags = (flags & ARMAS_TRANS) != 0 ? ARMAS_TRANSA : 0;
-    int NB = dB->cols;
+    // diagonal and off-diagonal blocks must fit to cache buffer as either operand
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     cI = A->cols < NB ? 0 : A->cols-NB;
@@ -293,7 +294,8 @@ void solve_ext_blk_lut_ll(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? ARMAS_TRANS : 0;
-    int NB = cache->NB;
+    // diagonal and off-diagonal blocks must fit to cache buffer as either operand
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -429,7 +431,8 @@ void solve_ext_blk_ru_rlt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? 0 : ARMAS_TRANSB;
-    int NB = cache->NB;
+    // diagonal and off-diagonal blocks must fit to cache buffer as either operand
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -568,7 +571,8 @@ void solve_ext_blk_rut_rl(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_TRANS ? ARMAS_TRANSB : 0;
-    int NB = cache->NB;
+    // diagonal and off-diagonal blocks must fit to cache buffer as either operand
+    int NB = min(cache->MB, cache->NB);
 
     nI = A->cols < NB ? A->cols : NB;
     cI = nI < NB ? 0 : A->cols - NB;
@@ -809,8 +813,8 @@ int armas_ext_solve_trm_w(
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
-    if (ncol > cache.NB)
-        ncol = cache.NB;
+    if (ncol > min(cache.MB, cache.NB))
+        ncol = min(cache.MB, cache.NB);
     if (flags & ARMAS_RIGHT)
         armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
     else
-- 
2.43.0


From 3cdb4fee7a260bfb8882fa519544c2b9ba437b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 106/245] fix: extended precision triangular solve failed for
 systems smaller than four

Space for one column is enough; report too small workspace as such.
---
 src/eblas/trsm_ext.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index 97aad4e..ad52fa7 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -791,8 +791,8 @@ int armas_ext_solve_trm_w(
         return -ARMAS_ESIZE;
     }
     if (!wb) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
 
     armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
@@ -808,10 +808,10 @@ int armas_ext_solve_trm_w(
         wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
         return 0;
     }
-    int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
-    if (ncol < 4) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+    int ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
+    if (ncol < 1) {
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
     if (ncol > min(cache.MB, cache.NB))
         ncol = min(cache.MB, cache.NB);
-- 
2.43.0


From 77a2ef777085d9a4d2e13ac1571af239f669218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 107/245] fix: extended precision triangular solve did not
 release cache buffer

---
 src/eblas/trsm_ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index ad52fa7..94c68af 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -806,10 +806,12 @@ int armas_ext_solve_trm_w(
 
     if (wb->bytes == 0) {
         wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     int ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
     if (ncol < 1) {
+        armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -820,6 +822,7 @@ int armas_ext_solve_trm_w(
     else
         armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From aec54343767cd243496ed2231894570b5ba7c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 108/245] fix: extended precision triangular product overran
 cache blocks when block sizes differ

---
 src/eblas/trmm_ext.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..50b579f 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -77,7 +77,7 @@ void trmm_ext_blk_upper(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     for (i = 0; i < A->rows; i += NB) {
         nI = A->rows - i < NB ? A->rows - i : NB;
@@ -150,7 +150,7 @@ void trmm_ext_blk_u_trans(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     for (i = A->cols; i > 0; i -= NB) {
         nI = i < NB ? i : NB;
@@ -224,7 +224,7 @@ void trmm_ext_blk_lower(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
 
     for (i = A->cols; i > 0; i -= NB) {
         nI = i < NB ? i : NB;
@@ -298,7 +298,7 @@ void trmm_ext_blk_l_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -373,7 +373,7 @@ void trmm_ext_blk_r_upper(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -448,7 +448,7 @@ void trmm_ext_blk_r_lower(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -522,7 +522,7 @@ void trmm_ext_blk_ru_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -596,7 +596,7 @@ void trmm_ext_blk_rl_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    int NB = min(cache->MB, cache->NB);
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -630,7 +630,7 @@ void trmm_ext_unb_unsafe(
     int i, nJ;
     armas_dense_t dB, B0;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = mcache->NB;
+    int NB = min(mcache->MB, mcache->NB);
 
     if (flags & ARMAS_RIGHT) {
         for (i = 0; i < B->rows; i += NB) {
@@ -686,7 +686,7 @@ void armas_ext_mult_trm_unsafe(
     int flags,
     cache_t *mcache)
 {
-    if (A->cols < mcache->NB) {
+    if (A->cols < min(mcache->MB, mcache->NB)) {
         trmm_ext_unb_unsafe(B, alpha, A, flags, mcache);
         return;
     }
-- 
2.43.0


From bb94a3ec030a46b92ec8988d7e0be4ea9e6ddef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 109/245] fix: naive extended precision triangular product
 overran cache buffer and leaked it

Unblocked code needs a correction block that covers whole rows or columns
of the result; it is usable, and already selected, only for matrices that
fit to the cache buffer.
---
 src/eblas/trmm_ext.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 50b579f..e1284c6 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -783,10 +783,6 @@ int armas_ext_mult_trm(
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
-    if (cf->optflags & ARMAS_ONAIVE) {
-        trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
-        return 0;
-    }
     armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
     armas_cbuf_release(&cbuf);
     return 0;
-- 
2.43.0


From 9a57d8d856888e4347fcd1c55eb9696c3311a581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 110/245] fix: extended precision symmetric product from right
 overran cache blocks when block sizes differ

---
 src/eblas/symm_ext.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eblas/symm_ext.c b/src/eblas/symm_ext.c
index c430346..0553975 100644
--- a/src/eblas/symm_ext.c
+++ b/src/eblas/symm_ext.c
@@ -221,12 +221,15 @@ void armas_ext_mult_symm_right(
     flags1 |= (flags & ARMAS_UPPER) != 0 ? 0 : ARMAS_TRANSB;
     flags2 |= (flags & ARMAS_UPPER) != 0 ? ARMAS_TRANSB : 0;
 
-    for (ic = 0; ic < C->cols; ic += mcache->NB) {
-        nC = C->cols - ic < mcache->NB ? C->cols - ic : mcache->NB;
+    // diagonal block of A goes to first cache block and block of B to the second
+    // one; both must fit there also when MB != NB
+    int nb = min(mcache->MB, mcache->NB);
+    for (ic = 0; ic < C->cols; ic += nb) {
+        nC = C->cols - ic < nb ? C->cols - ic : nb;
 
         // for all rows of C, B ...
-        for (ir = 0; ir < C->rows; ir += mcache->MB) {
-            nR = C->rows - ir < mcache->MB ? C->rows - ir : mcache->MB;
+        for (ir = 0; ir < C->rows; ir += nb) {
+            nR = C->rows - ir < nb ? C->rows - ir : nb;
 
             armas_submatrix_unsafe(&C0, C, ir, ic, nR, nC);
             armas_make(&dC, nR, nC, mcache->ab_step, mcache->dC);
-- 
2.43.0


From 70e1675e982f20454c59fd860451de6842abbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 111/245] fix: triangular solve did not release call-local
 cache buffer

---
 src/blas/trsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From f6995f5ae62375b1244c41cd0942344f0395e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 112/245] fix: accelerated matrix product ignored conjugate
 transpose flags when slicing operands

---
 src/threaded/gemm.c | 22 +++++-----------------
 src/workers/gemm.c  | 22 +++++-----------------
 2 files changed, 10 insertions(+), 34 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..3a1b9a9 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,31 +47,19 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
-    case ARMAS_TRANSA | ARMAS_TRANSB:
+    if ((blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) != 0) {
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-        armas_submatrix_unsafe(
-            &B, blas->B, args->column, 0, args->ncolumns, blas->B->cols);
-        break;
-    case ARMAS_TRANSA:
-        armas_submatrix_unsafe(
-            &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-        armas_submatrix_unsafe(
-            &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
-        break;
-    case ARMAS_TRANSB:
+    } else {
         armas_submatrix_unsafe(
             &A, blas->A, args->row, 0, args->nrows, blas->A->cols);
+    }
+    if ((blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) != 0) {
         armas_submatrix_unsafe(
             &B, blas->B, args->column, 0, args->ncolumns, blas->B->cols);
-        break;
-    default:
-        armas_submatrix_unsafe(
-            &A, blas->A, args->row, 0, args->nrows, blas->A->cols);
+    } else {
         armas_submatrix_unsafe(
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
-        break;
     }
     cache_t cache;
     struct armas_cbuf *cbuf = armas_cbuf_get_thread_global();
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..1180154 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,31 +50,19 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
-    case ARMAS_TRANSA | ARMAS_TRANSB:
+    if ((blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) != 0) {
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-        armas_submatrix_unsafe(
-            &B, blas->B, args->column, 0, args->ncolumns, blas->B->cols);
-        break;
-    case ARMAS_TRANSA:
-        armas_submatrix_unsafe(
-            &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-        armas_submatrix_unsafe(
-            &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
-        break;
-    case ARMAS_TRANSB:
+    } else {
         armas_submatrix_unsafe(
             &A, blas->A, args->row, 0, args->nrows, blas->A->cols);
+    }
+    if ((blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) != 0) {
         armas_submatrix_unsafe(
             &B, blas->B, args->column, 0, args->ncolumns, blas->B->cols);
-        break;
-    default:
-        armas_submatrix_unsafe(
-            &A, blas->A, args->row, 0, args->nrows, blas->A->cols);
+    } else {
         armas_submatrix_unsafe(
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
-        break;
     }
     cache_t cache;
     struct armas_cbuf *cbuf = armas_cbuf_create_thread_global();
-- 
2.43.0


From d77e1812239b72ae92c030e6da096bfcea270e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 113/245] fix: task queue reader did not wake up writer waiting
 on full queue

---
 src/workers/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..91b4886 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
-- 
2.43.0


From 9f9ede4bababa6a67b18da04230903cfc541ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 114/245] fix: completion counter wait returned early on
 spurious wakeup

---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From 8710f8920c538e864fc0d872893653127152d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 115/245] fix: task memory was released while still referenced
 in queue of other worker

---
 src/workers/gemm.c    |  5 ++---
 src/workers/workers.h | 16 ++++++----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 1180154..a4931a5 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -205,9 +205,8 @@ int armas_ac_workers_mult(
 
     // wait for tasks to finish
     armas_counter_wait(&ready);
-    // verify that task worker count is zero on all tasks
-    int refcnt = worker_all_ready(tasks, ntask);
-    assert(refcnt == 0);
+    // task worker count must be zero on all tasks before releasing task memory
+    worker_wait_all_ready(tasks, ntask);
     // release task memory
     free(tasks);
     return 0;
diff --git a/src/workers/workers.h b/src/workers/workers.h
index 550eb36..c0a9972 100644
--- a/src/workers/workers.h
+++ b/src/workers/workers.h
@@ -37,19 +37,15 @@ int worker_tiles(int *nrow, int *ncol, int M, int N, int wb)
     return (*nrow)*(*ncol);
 }
 
+// Wait until no worker refers to any of the tasks; tasks may still be in the queue
+// of other worker than the one that executed it.
 static inline
-int worker_all_ready(struct armas_ac_worker_task *tasks, int ntask)
+void worker_wait_all_ready(struct armas_ac_worker_task *tasks, int ntask)
 {
-    int refcount;
-    for (int k = 0; k < 50; k++) {
-        refcount = 0;
-        for (int i = 0; i < ntask; i++) {
-            refcount += tasks[i].task.wcnt;
-        }
-        if (refcount == 0)
-            break;
+    for (int i = 0; i < ntask; i++) {
+        while (__atomic_load_n(&tasks[i].task.wcnt, __ATOMIC_ACQUIRE) != 0)
+            sched_yield();
     }
-    return refcount;
 }
 
 #endif /* ARMAS_WORKERS_H */
-- 
2.43.0


From 6a43da07c30d80bc65d0e558b6ec0033c7cebe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 116/245] fix: worker scheduler crashed or hung when stopped
 unused or early and when started by concurrent callers

---
 src/workers/workers.c | 96 +++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..ff2ee3e 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -54,6 +54,8 @@ typedef struct armas_ac_sched_workers {
     pthread_t tid;
     unsigned int options;
     unsigned int nworker;
+    unsigned int nstarted;
+    pthread_mutex_t lock;
     unsigned int rrindex;
     unsigned int status;
     unsigned int nsched;
@@ -83,11 +85,11 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
-    while (W->running) {
+    while (1) {
         taskq_read(&W->inqueue, (void **)&T);
         if (!T) {
-            continue;
+            // stop request
+            break;
         }
         W->nsched++;
 
@@ -110,10 +112,12 @@ void *worker_thread(void *arg)
 }
 
 static
-void worker_start(struct armas_ac_worker *W)
+int worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
-    pthread_create(&W->tid, NULL, worker_thread, W);
+    if (pthread_create(&W->tid, NULL, worker_thread, W) != 0)
+        return -1;
+    W->running = 1;
     if (W->cpuid != -1) {
         // set cpu affinity
         CPU_ZERO(&cpuset);
@@ -121,7 +125,7 @@ void worker_start(struct armas_ac_worker *W)
         //printf(".. set worker %d affinity to cpu %d\n", W->id, W->cpuid);
         pthread_setaffinity_np(W->tid, sizeof(cpuset), &cpuset);
     }
-    return;
+    return 0;
 }
 
 static inline
@@ -155,9 +159,15 @@ static
 int sched_workers_start(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
-    for (int i = 0; i < sched->nworker; i++) {
-        worker_start(&sched->workers[i]);
+    unsigned int i;
+    for (i = 0; i < sched->nworker; i++) {
+        if (worker_start(&sched->workers[i]) < 0)
+            break;
     }
+    if (i == 0)
+        return -1;
+    // use only workers that are running
+    sched->nstarted = i;
     sched->status = 1;
     return 0;
 }
@@ -166,13 +176,16 @@ static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
-    for (int i = 0; i < sched->nworker; i++) {
-        sched->workers[i].running = 0;
+    if (!sched->status)
+        return 0;
+    for (int i = 0; i < sched->nstarted; i++) {
         taskq_write(&sched->workers[i].inqueue, NULL);
     }
-    for (int i = 0; i < sched->nworker; i++) {
+    for (int i = 0; i < sched->nstarted; i++) {
         pthread_join(sched->workers[i].tid, (void **)0);
+        sched->workers[i].running = 0;
     }
+    sched->nstarted = 0;
     sched->status = 0;
     return 0;
 }
@@ -194,47 +207,47 @@ int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
-    if (!sched->status) {
-        armas_sched_start(sc);
+    // scheduler state is shared by all threads that use the accelerator
+    pthread_mutex_lock(&sched->lock);
+    if (!sched->status && armas_sched_start(sc) < 0) {
+        pthread_mutex_unlock(&sched->lock);
+        // no workers available; run here.
+        task->wcnt = 0;
+        (task->func)(task->args);
+        armas_counter_decrement(task->ready);
+        return 0;
     }
 
     // scheduling ARMAS_SCHED_WORKERS, write directly to worker queues.
     sched->nsched++;
-    if (sched->nworker == 1) {
-        task->wcnt = 1;
-        taskq_write(&sched->workers[0].inqueue, task);
-        return 0;
-    }
-
-    if (sched->options & ARMAS_OSCHED_TWO) {
-        task->wcnt = 2;
-        if (sched->nworker == 2) {
-            taskq_write(&sched->workers[0].inqueue, task);
-            taskq_write(&sched->workers[1].inqueue, task);
-            return 0;
-        }
+    task->wcnt = 1;
+    k = j = 0;
+    if (sched->nstarted > 1) {
         if ((sched->options & ARMAS_OSCHED_ROUNDROBIN) != 0) {
             k = sched->rrindex;
-            sched->rrindex = (sched->rrindex + 1) % sched->nworker;
-            j = sched->rrindex;
-            sched->rrindex = (sched->rrindex + 1) % sched->nworker;
+            sched->rrindex = (sched->rrindex + 1) % sched->nstarted;
         } else {
-            k = lrand48() % sched->nworker;
-            for (j = k; j == k; j = lrand48() % sched->nworker);
+            k = lrand48() % sched->nstarted;
+        }
+        if (sched->options & ARMAS_OSCHED_TWO) {
+            task->wcnt = 2;
+            if (sched->nstarted == 2) {
+                j = 1 - k;
+            } else if ((sched->options & ARMAS_OSCHED_ROUNDROBIN) != 0) {
+                j = sched->rrindex;
+                sched->rrindex = (sched->rrindex + 1) % sched->nstarted;
+            } else {
+                for (j = k; j == k; j = lrand48() % sched->nstarted);
+            }
         }
-        taskq_write(&sched->workers[k].inqueue, task);
-        taskq_write(&sched->workers[j].inqueue, task);
-        return 0;
     }
+    // task memory may be released as soon as last worker has read it.
+    int two = task->wcnt == 2;
+    pthread_mutex_unlock(&sched->lock);
 
-    task->wcnt = 1;
-    if ((sched->options & ARMAS_OSCHED_ROUNDROBIN) != 0) {
-        k = sched->rrindex;
-        sched->rrindex = (sched->rrindex + 1) % sched->nworker;
-    } else {
-        k = lrand48() % sched->nworker;
-    }
     taskq_write(&sched->workers[k].inqueue, task);
+    if (two)
+        taskq_write(&sched->workers[j].inqueue, task);
     return 0;
 }
 
@@ -271,6 +284,7 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
         sc->workers[i].cpuid = last_cpu;
     }
     sc->nsched = 0;
+    pthread_mutex_init(&sc->lock, NULL);
 
     sc->sched.vptr = &ops;
     *scheduler = (struct armas_ac_scheduler *)sc;
-- 
2.43.0


From 79b2719242f3bf00d7115146216a0a365b94a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 117/245] fix: transient worker threads could miss the last
 task and were never joined

---
 src/workers/transient.c | 60 ++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..fdb9cb4 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -29,16 +29,13 @@
 #include "scheduler.h"
 #include "workers.h"
 
-#define cmpxchg(P, O, N) __sync_val_compare_and_swap((P), (O), (N))
-#define atomic_dec(P) __sync_sub_and_fetch((P), 1)
-#define atomic_inc(P) __sync_add_and_fetch((P), 1)
-
 struct armas_ac_sched_transient;
 
 struct armas_ac_thread {
     pthread_t tid;
     struct armas_ac_sched_transient *sched;
     int running;
+    int started;
 };
 
 struct armas_ac_sched_transient {
@@ -48,6 +45,7 @@ struct armas_ac_sched_transient {
     unsigned int options;
     size_t nworker;
     size_t nrunning;
+    pthread_mutex_t lock;
     unsigned int status;
 };
 
@@ -61,17 +59,23 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
-            break;
+        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+            // exit only if queue is still empty when this thread is not counted as running.
+            pthread_mutex_lock(&sc->lock);
+            if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+                self->running = 0;
+                sc->nrunning--;
+                pthread_mutex_unlock(&sc->lock);
+                break;
+            }
+            pthread_mutex_unlock(&sc->lock);
+        }
 
         (T->func)(T->args);
         armas_counter_decrement(T->ready);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -86,6 +90,15 @@ int sched_transient_start(struct armas_ac_scheduler *sc)
 static
 int sched_transient_stop(struct armas_ac_scheduler *sc)
 {
+    struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
+    // threads exit when there is no more work
+    for (size_t k = 0; k < sched->nworker; k++) {
+        if (sched->threads[k].started) {
+            pthread_join(sched->threads[k].tid, NULL);
+            sched->threads[k].started = 0;
+        }
+    }
+    sched->status = 0;
     return 0;
 }
 
@@ -97,6 +110,7 @@ int sched_transient_release(struct armas_ac_scheduler *sc)
         return -ARMAS_EINVAL;
 
     taskq_release(&sched->task_queue);
+    pthread_mutex_destroy(&sched->lock);
     free(sched);
     return 0;
 }
@@ -109,13 +123,34 @@ int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     taskq_enqueue(&sched->task_queue, task, 1);
+
+    pthread_mutex_lock(&sched->lock);
     if (sched->nrunning < sched->nworker) {
         for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
 
-        sched->threads[k].running = 1;
+        if (sched->threads[k].started) {
+            // previous thread of this slot has exited
+            pthread_join(sched->threads[k].tid, NULL);
+        }
         sched->threads[k].sched = sched;
-        pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
+        sched->threads[k].running = 1;
+        sched->nrunning++;
+        sched->threads[k].started =
+            pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]) == 0;
+        if (!sched->threads[k].started) {
+            sched->threads[k].running = 0;
+            sched->nrunning--;
+        }
+    }
+    int idle = sched->nrunning == 0;
+    pthread_mutex_unlock(&sched->lock);
+
+    if (idle) {
+        // could not start any thread; run queued tasks here.
+        while (taskq_dequeue_nowait(&sched->task_queue, (void **)&task, 1) == 0) {
+            (task->func)(task->args);
+            armas_counter_decrement(task->ready);
+        }
     }
     return 0;
 }
@@ -146,6 +181,7 @@ int armas_ac_sched_transient_init(struct armas_ac_scheduler **scheduler, int qle
     sc->threads = (struct armas_ac_thread *)&buf[sizeof(struct armas_ac_sched_transient)];
     sc->nworker = env->max_cores;
     sc->nrunning = 0;
+    pthread_mutex_init(&sc->lock, NULL);
     sc->options = env->options;
 
     sc->sched.vptr = &ops;
-- 
2.43.0


From 47babc4d7c027aa01dd26e94df685c769045b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 118/245] fix: accelerator release did not release scheduler
 resources

---
 src/workers/entry.c     | 1 +
 src/workers/scheduler.h | 2 +-
 src/workers/workers.c   | 4 ++++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/workers/entry.c b/src/workers/entry.c
index 2373db6..318d219 100644
--- a/src/workers/entry.c
+++ b/src/workers/entry.c
@@ -64,6 +64,7 @@ int armas_ac_workers_release(void *private)
     if (!scheduler)
         return 0;
     armas_sched_stop(scheduler);
+    armas_sched_release(scheduler);
     return 0;
 }
 
diff --git a/src/workers/scheduler.h b/src/workers/scheduler.h
index da41787..788af8b 100644
--- a/src/workers/scheduler.h
+++ b/src/workers/scheduler.h
@@ -70,7 +70,7 @@ void armas_sched_release(struct armas_ac_scheduler *sc)
 {
     if (!sc || !sc->vptr->release)
         return;
-    (sc->vptr->start)(sc);
+    (sc->vptr->release)(sc);
 }
 
 static inline
diff --git a/src/workers/workers.c b/src/workers/workers.c
index ff2ee3e..0d1f3d1 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -196,6 +196,10 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched || sched->status)
         return -1;
+    for (int i = 0; i < sched->nworker; i++) {
+        taskq_release(&sched->workers[i].inqueue);
+    }
+    pthread_mutex_destroy(&sched->lock);
     free(sched);
     return 0;
 }
-- 
2.43.0


From 91d912de07bca850fc35740400c2f7350eb86e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 119/245] fix: threads of threaded matrix product did not
 release their cache buffer

---
 src/threaded/gemm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 3a1b9a9..b1789ee 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -74,6 +74,9 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    /* Last block is computed in main thread. Do not release thread global resources. */
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
-- 
2.43.0


From 6dd582ca27f69f13999a20c2865c97f6289b13af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 120/245] fix: extended precision assembly had uninitialized
 in-out operands that may share registers with inputs

---
 src/include/x86_64/eftops.h | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/include/x86_64/eftops.h b/src/include/x86_64/eftops.h
index 0c41ffe..172c820 100644
--- a/src/include/x86_64/eftops.h
+++ b/src/include/x86_64/eftops.h
@@ -80,8 +80,8 @@ static const __m256d __fact_f64x4 = (const __m256d){
              "vsub" t " %[y],  %[a0], %[y]\n\t"                         \
              "vsub" t " %[z],  %[b0], %[z]\n\t"                         \
              "vadd" t " %[y],  %[z],  %[y]\n\t"                         \
-             : [x]  "+x" (_x), [y]  "+x" (_y), [z] "+x" (z),            \
-               [a0] "+x" (a0), [b0] "+x" (b0)                           \
+             : [x]  "=&x" (_x), [y]  "=&x" (_y), [z] "=&x" (z),            \
+               [a0] "=&x" (a0), [b0] "=&x" (b0)                           \
              : [ah]  "x" (_a), [bh]  "x" (_b));                         \
     } while (0)
 
@@ -102,8 +102,8 @@ static const __m256d __fact_f64x4 = (const __m256d){
              "vadd" t " %[ah], %[bh], %[x]\n\t"                         \
              "vsub" t " %[x],  %[a0], %[z]\n\t"                         \
              "vadd" t " %[z],  %[b0], %[y]\n\t"                         \
-             : [x]  "+x" (_x), [y]  "=x" (_y), [z] "+x" (z),            \
-               [a0] "+x" (a0), [b0] "+x" (b0)                           \
+             : [x]  "=&x" (_x), [y]  "=x" (_y), [z] "=&x" (z),            \
+               [a0] "=&x" (a0), [b0] "=&x" (b0)                           \
              : [ah]  "x" (_a), [bh]  "x" (_b));                         \
     } while (0)
 
@@ -124,8 +124,8 @@ static const __m256d __fact_f64x4 = (const __m256d){
              "vsub" t " %[a], %[z], %[x]\n\t"                   \
              "vsub" t " %[x], %[z], %[x]\n\t"                   \
              "vsub" t " %[x], %[a0], %[y]\n\t"                  \
-             : [x] "+x" (_x), [y] "=x" (_y),                    \
-               [z] "+x" (z) , [a0] "+x" (a0)                    \
+             : [x] "=&x" (_x), [y] "=x" (_y),                    \
+               [z] "=&x" (z) , [a0] "=&x" (a0)                    \
              : [a]  "x" (_a), [f]  "x" (_fct));                 \
     } while (0)
 
@@ -141,7 +141,7 @@ static const __m256d __fact_f64x4 = (const __m256d){
              "vadd" t " %[r], %[p], %[q]\n\t"                   \
              "vsub" t " %[r], %[q], %[x]\n\t"                   \
              "vsub" t " %[x], %[p], %[y]\n\t"                   \
-             : [x] "+x" (_x), [y] "=x" (_y), [q] "+x" (q)       \
+             : [x] "=&x" (_x), [y] "=x" (_y), [q] "=&x" (q)       \
              : [r] "x" (_r), [p] "x" (_p));                     \
     } while (0)
 
@@ -164,8 +164,8 @@ static const __m256d __fact_f64x4 = (const __m256d){
              "vmul" t " %[ah], %[bh], %[ch]\n\t"                        \
              movi " %[ch], %[cl]\n\t"                                   \
              "vfmsub231" t " %[a0], %[b0], %[cl]\n\t"                   \
-             : [ch] "+x" (x),  [cl] "+x" (y),                           \
-               [a0] "+x" (a0), [b0] "+x" (b0)                           \
+             : [ch] "=&x" (x),  [cl] "=&x" (y),                           \
+               [a0] "=&x" (a0), [b0] "=&x" (b0)                           \
              : [ah]  "x"  (a), [bh]  "x"  (b));                         \
     } while (0)
 
@@ -194,9 +194,9 @@ static const __m256d __fact_f64x4 = (const __m256d){
               "vsub" t " %[v], %[a], %[v]\n\t"                          \
               "vsub" t " %[w], %[v], %[v]\n\t"                          \
               "vdiv" t " %[b0], %[v], %[y]\n\t"                         \
-              : [x]  "+x" (_x), [y]  "+x" (_y),                         \
-                [v]  "+x" (v),  [w]  "+x" (w),                          \
-                [a0] "+x" (a0), [b0] "+x" (b0)                          \
+              : [x]  "=&x" (_x), [y]  "=&x" (_y),                         \
+                [v]  "=&x" (v),  [w]  "=&x" (w),                          \
+                [a0] "=&x" (a0), [b0] "=&x" (b0)                          \
               : [a]  "x"  (_a), [b]  "x"  (_b));                        \
      } while (0)
 
@@ -234,9 +234,9 @@ static const __m256d __fact_f64x4 = (const __m256d){
                  "vsub" t " %[z],  %[y0], %[y0]\n\t"                    \
                  "vmul" t " %[a2], %[b2], %[z]\n\t"                     \
                  "vsub" t " %[y0], %[z],  %[y0]\n\t"                    \
-                 : [x0] "+x" (_x), [y0] "+x" (_y), [z]  "+x" (z),       \
-                   [a1] "+x" (a1), [a2] "+x" (a2),                      \
-                   [b1] "+x" (b1), [b2] "+x" (b2)                       \
+                 : [x0] "=&x" (_x), [y0] "=&x" (_y), [z]  "=&x" (z),       \
+                   [a1] "=&x" (a1), [a2] "=&x" (a2),                      \
+                   [b1] "=&x" (b1), [b2] "=&x" (b2)                       \
                  : [ah]  "x" (_a), [bh]  "x" (_b),  [f] "x" (_fct));    \
         } while (0)
 
@@ -280,10 +280,10 @@ static const __m256d __fact_f64x4 = (const __m256d){
               "vsub" t " %[v], %[a], %[v]\n\t"                          \
               "vsub" t " %[w], %[v], %[v]\n\t"                          \
               "vdiv" t " %[b], %[v], %[y]\n\t"                          \
-              : [x]  "+x" (_x), [y]  "+x" (_y), [z]  "+x" (z),          \
-                [a1] "+x" (a1), [a2] "+x" (a2),                         \
-                [b1] "+x" (b1), [b2] "+x" (b2),                         \
-                [v]  "+x" (v),  [w]  "+x" (w)                           \
+              : [x]  "=&x" (_x), [y]  "=&x" (_y), [z]  "=&x" (z),          \
+                [a1] "=&x" (a1), [a2] "=&x" (a2),                         \
+                [b1] "=&x" (b1), [b2] "=&x" (b2),                         \
+                [v]  "=&x" (v),  [w]  "=&x" (w)                           \
               : [a]   "x" (_a), [b]   "x" (_b),  [f] "x" (_fct));       \
      } while (0)
 
-- 
2.43.0


From ef0431f83d109a9a086f16905a8645a0f8fee52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 121/245] fix: approximate division without fused multiply-add
 used product of wrong operands

---
 src/include/x86_64/eftops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/x86_64/eftops.h b/src/include/x86_64/eftops.h
index 172c820..bf440b1 100644
--- a/src/include/x86_64/eftops.h
+++ b/src/include/x86_64/eftops.h
@@ -268,7 +268,7 @@ static const __m256d __fact_f64x4 = (const __m256d){
               "vsub" t " %[b],  %[z], %[b1]\n\t"                        \
               "vsub" t " %[b1], %[z], %[b1]\n\t"                        \
               "vsub" t " %[b1], %[b], %[b2]\n\t"                        \
-              "vmul" t " %[a],  %[b],  %[v]\n\t"                        \
+              "vmul" t " %[x],  %[b],  %[v]\n\t"                        \
               "vmul" t " %[a1], %[b1], %[z]\n\t"                        \
               "vsub" t " %[z],  %[v],  %[w]\n\t"                        \
               "vmul" t " %[a2], %[b1], %[z]\n\t"                        \
-- 
2.43.0


From bcdbea2c94fb4cd2f39ade056e1e1a84c1a937d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 122/245] fix: compat: entry points dgemv_, dger_, dsyr2_,
 dtrmv_ and dtrsm_ were not compiled into library

---
 src/compat/gemv.c | 4 ++--
 src/compat/ger.c  | 2 +-
 src/compat/syr2.c | 2 +-
 src/compat/trmm.c | 2 +-
 src/compat/trmv.c | 2 +-
 src/compat/trsm.c | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..d3ccdef 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..84c0799 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..4b06f25 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..1d24047 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmmf) || defined(cblas_trmm)
+#if defined(blas_trmmf) || defined(cblas_trmm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..418c8fc 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..ed0b453 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
-- 
2.43.0


From 50a283953f254c91bc538054e42a41ceea94a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 123/245] fix: compat: symmetric rank-2k update had wrong entry
 point name and used leading dimension of A for B

---
 src/compat/syr2k.c                 | 4 ++--
 src/include/float32/names_compat.h | 2 +-
 src/include/float64/names_compat.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..2ff11fa 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -39,10 +39,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
diff --git a/src/include/float32/names_compat.h b/src/include/float32/names_compat.h
index 7747fcc..8c800d5 100644
--- a/src/include/float32/names_compat.h
+++ b/src/include/float32/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  sgemm_
 #define blas_symmf  ssymm_
-#define blas_syr2kf ssyrk2_
+#define blas_syr2kf ssyr2k_
 #define blas_syrkf  ssyrk_
 #define blas_trmmf  strmm_
 #define blas_trsmf  strsm_
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From 48d291afb5bd4914a9a6176b5fbed03188d57d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 124/245] fix: compat: dgemm used wrong operand shapes for
 transposed operands

---
 src/compat/gemm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..25ed1a9 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,18 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
-
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N') {
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+        armas_make(&a, *k, *m, *lda, A);
+    } else {
+        armas_make(&a, *m, *k, *lda, A);
+    }
+    if (toupper(*transb) != 'N') {
         flags |= ARMAS_TRANSB;
+        armas_make(&b, *n, *k, *ldb, B);
+    } else {
+        armas_make(&b, *k, *n, *ldb, B);
+    }
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From c3a9ed3564c41b8ee5e0678235b79d1f78eb6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 125/245] fix: compat: cblas_dgemm computed wrong product for
 row major operands

---
 src/compat/gemm.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 25ed1a9..6d6ee7a 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -61,7 +61,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
 
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
@@ -69,7 +69,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Ba, N, K, ldb, B);
         } else {
@@ -78,22 +78,24 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
-            flags |= ARMAS_TRANSA;
+        // compute C^T = op(B)^T * op(A)^T; row major data is transpose of column major data
+        if (transa != CblasNoTrans) {
+            flags |= ARMAS_TRANSB;
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         } else {
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasNoTrans) {
-            flags |= ARMAS_TRANSB;
+        if (transb != CblasNoTrans) {
+            flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Ba, N, K, ldb, B);
         }
         armas_make(&Ca, N, M, ldc, C);
-        break;
+        armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
+        return;
     default:
         return;
     }
-- 
2.43.0


From 1e706a711d04f6396e2ac766e70d4f54ca274641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 126/245] fix: compat: cblas_dsymm used wrong order of
 symmetric matrix for column major operands

---
 src/compat/symm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
-- 
2.43.0


From bd5ed5575047f4fc99c880a2b0b8f174d2d89d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 127/245] fix: compat: cblas_dtrmm and cblas_dtrsm used wrong
 transpose and order of triangular matrix for row major operands

---
 src/compat/trmm.c | 8 ++++----
 src/compat/trsm.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 1d24047..64233ee 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,16 +86,16 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index ed0b453..0f72072 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,16 +86,16 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From a035b413c149521f54904dda1d6b6a94f4ce75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 128/245] fix: compat: conjugate transpose of real operands was
 handled as not transposed

---
 src/compat/gemv.c  | 2 +-
 src/compat/syr2k.c | 2 +-
 src/compat/syrk.c  | 2 +-
 src/compat/trmm.c  | 2 +-
 src/compat/trmv.c  | 2 +-
 src/compat/trsm.c  | 2 +-
 src/compat/trsv.c  | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index d3ccdef..15f5f45 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 2ff11fa..a05e681 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,7 +33,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..3974f3b 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 64233ee..f642372 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 418c8fc..839646e 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 0f72072..80fd329 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..7f188de 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) != 'N')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
-- 
2.43.0


From 16ede80f1bbd386dccbec933c0b67681e1d16713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 129/245] fix: compat: idamax_ returned zero based index

---
 src/compat/iamax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..7120691 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -34,7 +34,8 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    // fortran indexing starts from one
+    return *n < 1 || *incx < 1 ? 0 : armas_iamax(&x, conf) + 1;
 }
 #endif
 
-- 
2.43.0


From b858866fb9fd106055a53a479c3524f5a8fe214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 130/245] fix: compat: drotg_ did not return rotated element
 and reconstruction value

---
 src/compat/rot.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..dc71f2a 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -72,8 +72,25 @@ void blas_rotf(int *n, DTYPE * X, int *incx, DTYPE * Y, int *incy, DTYPE * c,
 #if defined(blas_rotgf)
 void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
-    DTYPE r;
-    armas_gvcompute(c, s, &r, *sa, *sb);
+    DTYPE r, z, a = *sa, b = *sb;
+    int neg;
+
+    armas_gvcompute(c, s, &r, a, b);
+    // sign of r is sign of element with larger magnitude
+    neg = ABS(a) > ABS(b) ? a < ZERO : b < ZERO;
+    if (neg != (r < ZERO)) {
+        *c = -(*c);
+        *s = -(*s);
+        r = -r;
+    }
+    if (ABS(a) > ABS(b))
+        z = *s;
+    else if (r == ZERO)
+        z = ZERO;
+    else
+        z = *c != ZERO ? ONE / *c : ONE;
+    *sa = r;
+    *sb = z;
 }
 #endif
 
-- 
2.43.0


From 62bd2b6a8bcdedc9735fe89d1be398bc7a74ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 131/245] fix: compat: matrix-vector operations ignored element
 order of vectors with negative increment

---
 src/compat/gemv.c    | 4 ++--
 src/compat/ger.c     | 4 ++--
 src/compat/symv.c    | 4 ++--
 src/compat/syr.c     | 2 +-
 src/compat/syr2.c    | 4 ++--
 src/compat/trmv.c    | 2 +-
 src/compat/trsv.c    | 2 +-
 src/include/compat.h | 9 +++++++++
 8 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index 15f5f45..7c1904e 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -43,12 +43,12 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
         armas_make(&y, ylen, 1, ylen, Y);
     } else {
         // row vector
-        armas_make(&y, 1, ylen, *incy, Y);
+        armas_make(&y, 1, ylen, *incy, compat_first(Y, ylen, *incy));
     }
     if (*incx == 1) {
         armas_make(&x, xlen, 1, xlen, X);
     } else {
-        armas_make(&x, 1, xlen, *incx, X);
+        armas_make(&x, 1, xlen, *incx, compat_first(X, xlen, *incx));
     }
     armas_mvmult(*beta, &y, *alpha, &a, &x, flags, conf);
 }
diff --git a/src/compat/ger.c b/src/compat/ger.c
index 84c0799..14ffa3d 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -36,12 +36,12 @@ void blas_gerf(int *m, int *n, DTYPE * alpha, DTYPE * X,
         armas_make(&y, *n, 1, *n, Y);
     } else {
         // row vector
-        armas_make(&y, 1, *n, *incy, Y);
+        armas_make(&y, 1, *n, *incy, compat_first(Y, *n, *incy));
     }
     if (*incx == 1) {
         armas_make(&x, *m, 1, *m, X);
     } else {
-        armas_make(&x, 1, *m, *incx, X);
+        armas_make(&x, 1, *m, *incx, compat_first(X, *m, *incx));
     }
     armas_mvupdate(ONE, &a, *alpha, &x, &y, conf);
 }
diff --git a/src/compat/symv.c b/src/compat/symv.c
index c5e1649..d689adc 100644
--- a/src/compat/symv.c
+++ b/src/compat/symv.c
@@ -48,12 +48,12 @@ void blas_symvf(char *uplo, int *n, DTYPE * alpha, DTYPE * A,
         armas_make(&y, *n, 1, *n, Y);
     } else {
         // row vector
-        armas_make(&y, 1, *n, *incy, Y);
+        armas_make(&y, 1, *n, *incy, compat_first(Y, *n, *incy));
     }
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-        armas_make(&x, 1, *n, *incx, X);
+        armas_make(&x, 1, *n, *incx, compat_first(X, *n, *incx));
     }
     armas_mvmult_sym(*beta, &y, *alpha, &a, &x, flags, conf);
 }
diff --git a/src/compat/syr.c b/src/compat/syr.c
index 0d9dd7f..920b98d 100644
--- a/src/compat/syr.c
+++ b/src/compat/syr.c
@@ -37,7 +37,7 @@ void blas_syrf(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-        armas_make(&x, 1, *n, *incx, X);
+        armas_make(&x, 1, *n, *incx, compat_first(X, *n, *incx));
     }
     armas_mvupdate_sym(ONE, &a, *alpha, &x, flags, conf);
 }
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 4b06f25..0b58049 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -37,12 +37,12 @@ void blas_syr2f(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-        armas_make(&x, 1, *n, *incx, X);
+        armas_make(&x, 1, *n, *incx, compat_first(X, *n, *incx));
     }
     if (*incy == 1) {
         armas_make(&y, *n, 1, *n, Y);
     } else {
-        armas_make(&y, 1, *n, *incy, Y);
+        armas_make(&y, 1, *n, *incy, compat_first(Y, *n, *incy));
     }
     armas_mvupdate2_sym(ONE, &a, *alpha, &x, &y, flags, conf);
 }
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 839646e..276f390 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -49,7 +49,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-        armas_make(&x, 1, *n, *incx, X);
+        armas_make(&x, 1, *n, *incx, compat_first(X, *n, *incx));
     }
     armas_mvmult_trm(&x, ONE, &a, flags, conf);
 }
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 7f188de..9fd5c35 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -49,7 +49,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-        armas_make(&x, 1, *n, *incx, X);
+        armas_make(&x, 1, *n, *incx, compat_first(X, *n, *incx));
     }
     armas_mvsolve_trm(&x, ONE, &a, flags, conf);
 }
diff --git a/src/include/compat.h b/src/include/compat.h
index 1e08c94..61c0c8f 100644
--- a/src/include/compat.h
+++ b/src/include/compat.h
@@ -70,5 +70,14 @@ enum CBLAS_SIDE		{CblasLeft=141, CblasRight=142};
 
 #endif  /* FLOAT64 */
 
+#include <stddef.h>
+
+//! @brief Address of first element of BLAS vector; elements are in reverse order if increment is negative.
+static inline
+DTYPE *compat_first(DTYPE *X, int n, int inc)
+{
+    return inc < 0 && n > 0 ? X + (ptrdiff_t)(1 - n) * inc : X;
+}
+
 #endif  /* CONFIG_COMPAT */
 #endif  /* ARMAS_COMPAT_H */
-- 
2.43.0


From ec7080015831c87dec6ebd77e0e900694b34ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 132/245] fix: compat: asum, nrm2 and scal accessed memory
 before vector if increment is not positive

---
 src/compat/asum.c | 3 +++
 src/compat/nrm2.c | 3 +++
 src/compat/scal.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/compat/asum.c b/src/compat/asum.c
index e606841..674403a 100644
--- a/src/compat/asum.c
+++ b/src/compat/asum.c
@@ -29,6 +29,9 @@ DTYPE blas_asumf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return ZERO;
+
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
diff --git a/src/compat/nrm2.c b/src/compat/nrm2.c
index cb1ac42..03608fb 100644
--- a/src/compat/nrm2.c
+++ b/src/compat/nrm2.c
@@ -29,6 +29,9 @@ DTYPE blas_nrm2f(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return ZERO;
+
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..0f5608c 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -29,6 +29,9 @@ void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return;
+
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-- 
2.43.0


From 91ccd6cb59dba269f27ce84717d911652e7870a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 133/245] fix: compat: matrix products with zero inner
 dimension did not scale result matrix

---
 src/compat/gemm.c  | 13 ++++++++++++-
 src/compat/syr2k.c |  5 +++++
 src/compat/syrk.c  |  5 +++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 6d6ee7a..8d148a0 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_mult)
+#if defined(armas_mult) && defined(armas_mscale)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -46,6 +46,11 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
         armas_make(&b, *k, *n, *ldb, B);
     }
 
+    if (*k == 0) {
+        // empty product
+        armas_mscale(&c, *beta, 0, conf);
+        return;
+    }
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
 #endif
@@ -59,6 +64,12 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
     armas_dense_t Ca, Aa, Ba;
     int flags = 0;
 
+    if (K == 0) {
+        // empty product
+        armas_make(&Ca, order == CblasRowMajor ? N : M, order == CblasRowMajor ? M : N, ldc, C);
+        armas_mscale(&Ca, beta, 0, &conf);
+        return;
+    }
     switch (order) {
     case CblasColMajor:
         if (transa != CblasNoTrans) {
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index a05e681..785c4bb 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -44,6 +44,11 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
         armas_make(&a, *n, *k, *lda, A);
         armas_make(&b, *n, *k, *ldb, B);
     }
+    if (*k == 0) {
+        // empty product
+        armas_mscale(&c, *beta, flags & (ARMAS_UPPER|ARMAS_LOWER), conf);
+        return;
+    }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
 #endif
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index 3974f3b..d7d7333 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -41,6 +41,11 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     } else {
         armas_make(&a, *n, *k, *lda, A);
     }
+    if (*k == 0) {
+        // empty product
+        armas_mscale(&c, *beta, flags & (ARMAS_UPPER|ARMAS_LOWER), conf);
+        return;
+    }
     armas_update_sym(*beta, &c, *alpha, &a, flags, conf);
 }
 #endif
-- 
2.43.0


From 13272e4fe55ec5b0312961e7accb106cc41ff7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 134/245] fix: bksolve accepts factorization and pivot vector
 of wrong size

---
 src/lapack/ldlbk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 1e366dd..0efce72 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -251,7 +251,8 @@ int armas_bksolve_w(armas_dense_t * B, const armas_dense_t * A,
         return 0;
     }
 
-    if (A->cols != B->rows) {
+    if (A->rows != A->cols || A->cols != B->rows ||
+        armas_pivot_size(P) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 1ab945fe6c0f13bd1ae49ee08351b3b35e419707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 135/245] fix: ldlfactor accepts pivot vector of wrong size

---
 src/lapack/ldlpv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lapack/ldlpv.c b/src/lapack/ldlpv.c
index ad346fd..a491400 100644
--- a/src/lapack/ldlpv.c
+++ b/src/lapack/ldlpv.c
@@ -567,6 +567,11 @@ int armas_ldlfactor_w(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
+    if (P != ARMAS_NOPIVOT && armas_pivot_size(P) != A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     if (P == ARMAS_NOPIVOT) {
         wsz = armas_wbytes(wb) / sizeof(DTYPE);
         armas_make(&W, wsz, 1, wsz, (DTYPE *) armas_wptr(wb));
-- 
2.43.0


From 292ee267700874c67be4442ff61e4f24048443da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 136/245] fix: ldlinverse accepts pivot vector of wrong size

---
 src/lapack/invldl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/invldl.c b/src/lapack/invldl.c
index 965aa23..4cb6f6f 100644
--- a/src/lapack/invldl.c
+++ b/src/lapack/invldl.c
@@ -334,7 +334,8 @@ int armas_ldlinverse_w(armas_dense_t * A, const armas_pivot_t * P,
         return 0;
     }
 
-    if (A->rows != A->cols) {
+    if (A->rows != A->cols ||
+        (P != ARMAS_NOPIVOT && armas_pivot_size(P) != A->rows)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From 8915a5d692a28091b02cbd1a05e4daca913ee6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 137/245] fix: lufactor and lusolve accept pivot vector of
 wrong size

---
 src/lapack/lu.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 8293973..a951899 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -305,6 +305,11 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
     if (!cf)
         cf = armas_conf_default();
 
+    if (P && armas_pivot_size(P) < (A->rows < A->cols ? A->rows : A->cols)) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     armas_env_t *env = armas_getenv();
     if (env->lb == 0 || A->cols <= env->lb || A->rows <= env->lb) {
         if (P) {
@@ -356,7 +361,8 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    ok = B->rows == A->cols && A->rows == A->cols;
+    ok = B->rows == A->cols && A->rows == A->cols &&
+        (!P || armas_pivot_size(P) == A->rows);
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From 29e3f95845a6331fe03b526eb175aa040fe63aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 138/245] fix: cholupdate does not validate its operands

---
 src/lapack/cholupd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lapack/cholupd.c b/src/lapack/cholupd.c
index 6ee7fa7..ca95074 100644
--- a/src/lapack/cholupd.c
+++ b/src/lapack/cholupd.c
@@ -161,6 +161,15 @@ int armas_cholupdate(armas_dense_t * A, armas_dense_t * X, int flags,
     if (armas_size(A) == 0 || armas_size(X) == 0)
         return 0;
 
+    if (!armas_isvector(X)) {
+        conf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
+    if (A->rows != A->cols || armas_size(X) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     // private functions expect row vector
     if (X->cols == 1) {
         armas_col_as_row(&Xrow, X);
-- 
2.43.0


From 3fb55021fbf3c5b9929f3608c3a9470b8d6214dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 139/245] fix: bidiagonal reduction functions accept too short
 tau vectors

---
 src/lapack/bibld.c  | 6 ++++++
 src/lapack/bired.c  | 7 +++++++
 src/lapack/biredm.c | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index 0ff5462..4704e30 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -123,6 +123,12 @@ int armas_bdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
+    if (!tau ||
+        armas_size(tau) < (A->rows < A->cols ? A->rows : A->cols)) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+
     if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
         case ARMAS_WANTQ:
diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 83bfbed..48144ff 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -945,6 +945,13 @@ int armas_bdreduce_w(armas_dense_t * A,
         return 0;
     }
 
+    int mn = A->rows < A->cols ? A->rows : A->cols;
+    if (!armas_isvector(tauq) || armas_size(tauq) < mn ||
+        !armas_isvector(taup) || armas_size(taup) < mn) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+
     lb = env->lb;
     wsmin = (A->cols + A->rows) * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 9726df1..1475222 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -154,6 +154,11 @@ int armas_bdmult_w(armas_dense_t * C,
             wb->bytes = wsmin;
         return 0;
     }
+    if (!A || !tau ||
+        armas_size(tau) < (A->rows < A->cols ? A->rows : A->cols)) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // default to multiplication from left
     if (!(flags & (ARMAS_LEFT | ARMAS_RIGHT)))
         flags |= ARMAS_LEFT;
-- 
2.43.0


From 052ecfcdcd2e8b9b334a7a886564bfab80042fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 140/245] fix: hessmult does not validate A and tau

---
 src/lapack/hessm.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index 57b936f..ca3525e 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -119,6 +119,17 @@ int armas_hessmult_w(armas_dense_t * C,
         return -1;
     }
 
+    if (!(wb && wb->bytes == 0)) {
+        if (!A || !tau || armas_size(tau) < A->rows - 1) {
+            conf->error = ARMAS_EINVAL;
+            return -ARMAS_EINVAL;
+        }
+        if (A->rows != A->cols) {
+            conf->error = ARMAS_ESIZE;
+            return -ARMAS_ESIZE;
+        }
+    }
+
     armas_submatrix(&Qh, A, 1, 0, A->rows - 1, A->cols - 1);
     armas_submatrix(&tauh, tau, 0, 0, A->rows - 1, 1);
     if (flags & ARMAS_RIGHT) {
-- 
2.43.0


From c9397abf5c3bbf1a340222a1b1a47e59ddb58b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 141/245] fix: trdreduce accepts tau vector of wrong size

---
 src/lapack/trired.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index d9fa815..2fbd0f2 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) && armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 8b4cd3bc9326c89a98cdece618a03302af2c66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 142/245] fix: qrsolve and lqsolve return success for wrong
 size tau

---
 src/lapack/lqsolve.c | 3 ++-
 src/lapack/qrsolve.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index 8fca073..dab0e7b 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -131,7 +131,8 @@ int armas_lqsolve_w(armas_dense_t * B,
         return armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->cols) {
+    if (B->rows != A->cols || A->rows > A->cols ||
+        armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index bde09b1..1811455 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -120,7 +120,8 @@ int armas_qrsolve_w(armas_dense_t * B,
         return armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->rows) {
+    if (B->rows != A->rows || A->rows < A->cols ||
+        armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From f2f6fb2045eec14c924e5b6437f57f2d187ec047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 143/245] fix: qrbuild, lqbuild and qlbuild accept too short
 tau vector

---
 src/lapack/lqbld.c | 5 +++++
 src/lapack/qlbld.c | 5 +++++
 src/lapack/qrbld.c | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index 2c90068..dc84937 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -283,6 +283,11 @@ int armas_lqbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
+    if (K > armas_size(tau)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->rows * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 9966cf8..8481f41 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -277,6 +277,11 @@ int armas_qlbuild_w(armas_dense_t * A,
         return 0;
     }
 
+    if (K > armas_size(tau)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index ee7ebc2..fb5e642 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -301,6 +301,11 @@ int armas_qrbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
+    if (K > armas_size(tau)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
-- 
2.43.0


From 6b04c2988fd406011887552b761d6f4ef686ff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 144/245] fix: hessmult validates operands before they are used

---
 src/lapack/hessm.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index ca3525e..51e0e52 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -119,15 +119,13 @@ int armas_hessmult_w(armas_dense_t * C,
         return -1;
     }
 
-    if (!(wb && wb->bytes == 0)) {
-        if (!A || !tau || armas_size(tau) < A->rows - 1) {
-            conf->error = ARMAS_EINVAL;
-            return -ARMAS_EINVAL;
-        }
-        if (A->rows != A->cols) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    if (!A || !tau || armas_size(tau) < A->rows - 1) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (A->rows != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
     }
 
     armas_submatrix(&Qh, A, 1, 0, A->rows - 1, A->cols - 1);
-- 
2.43.0


From df78d749c4e2de0f91af532a734ce08bd4fb67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 145/245] fix: eigen_sym_selected destroys the matrix before
 rejecting too short result vector

---
 src/lapack/evd.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index a6d0a3c..757262b 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -306,6 +306,19 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
+    // number of values requested by index is known before reduction
+    int nvals = N;
+    if (params && params->ileft != -1 && params->iright != -1) {
+        nvals = 0;
+        if (params->ileft != 0 || params->iright != 0)
+            nvals = (params->iright < N ? params->iright : N) -
+                (params->ileft > 0 ? params->ileft : 0);
+    }
+    if (nvals > armas_size(D)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     if (N > 2 && (!wb || armas_wbytes(wb) < 2 * N * sizeof(DTYPE))) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 1084f71b70f0d2bf57a90b5162f605b08949d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 146/245] fix: size of tau vectors in bidiagonal reduction is
 the number of reflectors

---
 src/lapack/bibld.c  | 12 ++++++++++--
 src/lapack/bired.c  |  7 ++++---
 src/lapack/biredm.c | 12 ++++++++++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index 4704e30..df48e8d 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -123,8 +123,16 @@ int armas_bdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
-    if (!tau ||
-        armas_size(tau) < (A->rows < A->cols ? A->rows : A->cols)) {
+    if (!tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    // number of reflectors in Q or P
+    int tall = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER));
+    int nt = tall
+        ? ((flags & ARMAS_WANTQ) ? A->cols : A->cols - 1)
+        : ((flags & ARMAS_WANTQ) ? A->rows - 1 : A->rows);
+    if (armas_size(tau) < nt) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 48144ff..6a164ce 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -945,9 +945,10 @@ int armas_bdreduce_w(armas_dense_t * A,
         return 0;
     }
 
-    int mn = A->rows < A->cols ? A->rows : A->cols;
-    if (!armas_isvector(tauq) || armas_size(tauq) < mn ||
-        !armas_isvector(taup) || armas_size(taup) < mn) {
+    // number of reflectors in Q and P
+    int nq = A->rows >= A->cols ? A->cols : A->rows - 1;
+    int np = A->rows >= A->cols ? A->cols - 1 : A->rows;
+    if (armas_size(tauq) < nq || armas_size(taup) < np) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 1475222..5d88ca1 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -154,8 +154,16 @@ int armas_bdmult_w(armas_dense_t * C,
             wb->bytes = wsmin;
         return 0;
     }
-    if (!A || !tau ||
-        armas_size(tau) < (A->rows < A->cols ? A->rows : A->cols)) {
+    if (!A || !tau) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    // number of reflectors in Q or P
+    int tall = A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER));
+    int nt = tall
+        ? ((flags & ARMAS_MULTQ) ? A->cols : A->cols - 1)
+        : ((flags & ARMAS_MULTQ) ? A->rows - 1 : A->rows);
+    if (armas_size(tau) < nt) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 77d4583d1478747a93af53d996a84772a7022dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 147/245] fix: svd fails after destroying its input if result
 vector is longer than needed

---
 src/lapack/svd.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index b0e2694..e444aef 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -563,7 +563,7 @@ int armas_svd_w(armas_dense_t * S,
                   int flags, armas_wbuf_t * wb, armas_conf_t * conf)
 {
     int err, tall;
-    armas_dense_t W;
+    armas_dense_t W, S0;
     armas_env_t *env;
     size_t wsmin, wsz;
 
@@ -595,6 +595,14 @@ int armas_svd_w(armas_dense_t * S,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (armas_size(S) > P && P > 0) {
+        // values are stored to the first elements of longer vector
+        if (S->rows == 1)
+            armas_submatrix(&S0, S, 0, 0, 1, P);
+        else
+            armas_submatrix(&S0, S, 0, 0, P, 1);
+        S = &S0;
+    }
 
     if (!wb || armas_wbytes(wb) < wsmin) {
         conf->error = ARMAS_EWORK;
-- 
2.43.0


From 370e7d762666f95fd5582080a03ae47c00f0f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 148/245] fix: string streams: characters above 0x7f read as
 end of file, unget wrote to the constant string

---
 src/io/ios.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..c68f075 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
@@ -54,8 +54,12 @@ static
 void wb_ungetc(void *ptr, int c)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
-    if (wb->offset > 0)
-        wb->buf[--wb->offset] = c;
+    if (wb->offset > 0) {
+        wb->offset--;
+        // the buffer of a string stream may be read-only
+        if (wb->buf[wb->offset] != (char)c)
+            wb->buf[wb->offset] = c;
+    }
 }
 
 static
-- 
2.43.0


From 15bfe637bfa05f8f288fd8985779a00358f7b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 149/245] fix: armas_init/armas_alloc: size computation
 overflowed, structure left undefined or leaked when allocation fails

---
 src/base/matrix.c    | 9 +++++++--
 src/include/matrix.h | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..314a325 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <limits.h>
 
 #include "dtype.h"
 #include "matrix.h"
@@ -52,6 +53,7 @@
 armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
 {
     int doff;
+    size_t nelems;
 
     if (r <= 0 || c <= 0) {
         m->rows = r < 0 ? 0 : r;
@@ -63,12 +65,15 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         return m;
     }
     // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
-    m->__data = calloc(m->__nbytes, sizeof(DTYPE));
+    nelems = ALIGNSIZE((size_t)r*c, DTYPE);
+    m->__data = (size_t)r*c > INT_MAX ? (void *)0 : calloc(nelems, sizeof(DTYPE));
     if ( !m->__data ) {
+        m->rows = m->cols = m->step = 0;
+        m->elems = (DTYPE *)0;
         m->__nbytes = 0;
         return (armas_dense_t *)0;
     }
+    m->__nbytes = nelems;
     // convert to number of bytes
     m->__nbytes *= sizeof(DTYPE);
     m->rows = r;
diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..418b4bc 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -203,7 +203,11 @@ armas_dense_t *armas_alloc(int r, int c)
     }
     m = (armas_dense_t *)malloc(sizeof(armas_dense_t));
     if (!m) return m;
-    return armas_init(m, r, c);
+    if (!armas_init(m, r, c)) {
+        free(m);
+        return (armas_dense_t *)0;
+    }
+    return m;
 }
 
 //! @brief Release matrix and its allocated space
-- 
2.43.0


From 35658e8cfcdebfa8daff5121983ed6defcd499c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 150/245] fix: json: coordinate element with index equal to a
 matrix dimension was stored outside the matrix

---
 src/io/json_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..d0e7401 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -147,7 +147,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
-- 
2.43.0


From 5a5a88a53d3477cb52b6ca21fe6a9c5a69b5fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 151/245] fix: json: matrix sizes out of range or negative, and
 failing allocation, were not detected

---
 src/io/json_base.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index d0e7401..1a5400a 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -20,6 +20,7 @@
 
 //! @cond
 #include <stdio.h>
+#include <limits.h>
 #include "matrix.h"
 //! @endcond
 
@@ -111,6 +112,23 @@ enum {
     MEMBER_DTA_VAL
 };
 
+/*
+ * Convert number token to an integer; value that is not an integer or not in the
+ * range of int is an error.
+ */
+static
+int armas_json_int(int *val, const char *iob)
+{
+    char *end;
+    double v;
+
+    v = strtod(iob, &end);
+    if (end == iob || *end != '\0' || v > INT_MAX || v < INT_MIN || v != (int)v)
+        return -1;
+    *val = (int)v;
+    return 0;
+}
+
 static
 int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *ios, char *iob, size_t ioblen)
 {
@@ -120,12 +138,12 @@ int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *io
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *row = atoi(iob);
+    JSON_ONERROR(armas_json_int(row, iob));
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *col = atoi(iob);
+    JSON_ONERROR(armas_json_int(col, iob));
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
@@ -306,7 +324,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_ROW_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            rows = atoi(iob);
+            if (armas_json_int(&rows, iob) < 0 || rows < 0)
+                return -1;
             member_bits |= HAVE_ROWS;
             state = MEMBER_SEP;
             break;
@@ -319,7 +338,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_COL_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            cols = atoi(iob);
+            if (armas_json_int(&cols, iob) < 0 || cols < 0)
+                return -1;
             member_bits |= HAVE_COLS;
             state = MEMBER_SEP;
             break;
@@ -332,7 +352,7 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_NNZ_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            nnz = atoi(iob);
+            JSON_ONERROR(armas_json_int(&nnz, iob));
             member_bits |= HAVE_NNZ;
             state = MEMBER_SEP;
             break;
@@ -345,7 +365,7 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_FLG_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            flags = atoi(iob);
+            JSON_ONERROR(armas_json_int(&flags, iob));
             member_bits |= HAVE_FLAGS;
             state = MEMBER_SEP;
             break;
@@ -377,7 +397,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
-- 
2.43.0


From a3ae28e48a9781f4abb6b1e16bf476294cc293e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 152/245] fix: json: \uXXXX escape was converted as a decimal
 number, \f escape was rejected

---
 src/io/json_reader.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 6f23290..d49e5eb 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -141,6 +141,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case 'b':
                 *bp++ = '\b';
                 break;
+            case 'f':
+                *bp++ = '\f';
+                break;
             case 'n':
                 *bp++ = '\n';
                 break;
@@ -185,7 +188,19 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 return ARMAS_JSON_EINVAL;
             *cp++ = c;
             *cp = '\0';
-            c = atoi(lit) & 0xff;
+            // UTF-8 encoding of the code point
+            c = strtol(lit, (char **)0, 16);
+            if (c >= 0x80) {
+                if ((size_t)(bp - buf) + 3 >= len)
+                    return ARMAS_JSON_E2BIG;
+                if (c < 0x800) {
+                    *bp++ = 0xc0 | (c >> 6);
+                } else {
+                    *bp++ = 0xe0 | (c >> 12);
+                    *bp++ = 0x80 | ((c >> 6) & 0x3f);
+                }
+                c = 0x80 | (c & 0x3f);
+            }
             *bp++ = c;
             state = JSON_STATE_STRING;
             break;
-- 
2.43.0


From 65832710688151413af459edb11ae7ed30f5b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 153/245] fix: json: malformed numbers and characters that
 start no token were accepted

---
 src/io/json_reader.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index d49e5eb..3da1d0b 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -97,8 +97,12 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
     int c;
     int state = JSON_STATE_VALUE;
     int is_frac = 0;
+    int need_digit = 0;  // number not complete; digit must follow
     char lit[8], *cp, *bp;
 
+    if (!buf || len == 0)
+        return ARMAS_JSON_E2BIG;
+
     bp = buf;
     for (;;) {
         /* */
@@ -107,6 +111,8 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             switch (state) {
             case JSON_STATE_NUMBER:
             case JSON_STATE_EXP1:
+                if (need_digit)
+                    return ARMAS_JSON_EINVAL;
                 // we had one element; a number
                 *bp = '\0';
                 //return is_frac ? ARMAS_JSON_NUMBER : ARMAS_JSON_INT;
@@ -215,23 +221,28 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case '\r':
             case '\t':
                 armas_ios_ungetchar(reader, c);
+                if (need_digit)
+                    return ARMAS_JSON_EINVAL;
                 *bp = '\0';
                 //return is_frac ? ARMAS_JSON_NUMBER : ARMAS_JSON_INT;
                 return ARMAS_JSON_NUMBER;
             case 'e':
             case 'E':
+                if (need_digit)
+                    return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 state = JSON_STATE_EXP;
                 break;
             case '.':
-                if (is_frac)
+                if (is_frac || need_digit)
                     return ARMAS_JSON_EINVAL;
                 *bp++ = c;
-                is_frac = 1;
+                is_frac = need_digit = 1;
                 break;
             default:
                 if (isdigit(c)) {
                     *bp++ = c;
+                    need_digit = 0;
                 }
                 else {
                     return ARMAS_JSON_EINVAL;
@@ -245,11 +256,15 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             switch (c) {
             case '-':
             case '+':
+                if (need_digit)
+                    return ARMAS_JSON_EINVAL;
+                need_digit = 1;
                 *bp++ = c;
                 break;
             default:
                 if (isdigit(c)) {
                     *bp++ = c;
+                    need_digit = 0;
                     state = JSON_STATE_EXP1;
                 }
                 else {
@@ -375,10 +390,12 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 }
                 if (isdigit(c) || c == '-') {
                     *bp++ = c;
+                    need_digit = c == '-';
                     state = JSON_STATE_NUMBER;
                     break;
                 }
-                break;
+                // no token starts with this character
+                return ARMAS_JSON_EINVAL;
             }
         }
         if ((size_t)(bp - buf) >= len-1) {
-- 
2.43.0


From 7a406e3849211ba5668fbe4f935b7cb0726bfb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 154/245] fix: json: write error at start of a string was
 ignored, control characters of strings were lost

---
 src/io/json_writer.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..ef20810 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -35,8 +35,8 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
         break;
     case ARMAS_JSON_STRING:
         cp = (char *)ptr;
-        armas_ios_putchar(writer, '"');
-        for (int k = 0; *cp && k < len; k++, cp++) {
+        JSON_ONERROR(armas_ios_putchar(writer, '"'));
+        for (size_t k = 0; k < len && *cp; k++, cp++) {
             switch (*cp) {
             case '\t':
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
@@ -67,8 +67,13 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                 JSON_ONERROR(armas_ios_putchar(writer, '"'));
                 break;
             default:
-                if (!iscntrl(*cp))
-                    JSON_ONERROR(armas_ios_putchar(writer, *cp));
+                if (!iscntrl((unsigned char)*cp)) {
+                    JSON_ONERROR(armas_ios_putchar(writer, (unsigned char)*cp));
+                } else {
+                    n = snprintf(buf, sizeof(buf), "\\u%04x", (unsigned char)*cp);
+                    for (int i = 0; i < n; i++)
+                        JSON_ONERROR(armas_ios_putchar(writer, buf[i]));
+                }
                 break;
             }
         }
-- 
2.43.0


From b13d1c65885875c3a69d7f3202ae2ad0ab9139cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 155/245] fix: json: non-finite element was written as text
 that is not JSON

---
 src/io/json_writer.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index ef20810..761025a 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -101,11 +101,12 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
             return -1;
         }
 
-        if (isfinite(v)) {
-            n = snprintf(buf, sizeof(buf), numformat, v);
-            for (int k = 0; k < n; k++)
-                JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
-        }
+        n = snprintf(buf, sizeof(buf), numformat, v);
+        // JSON cannot represent inf or nan; (isfinite() is not usable with -ffast-math)
+        if (n <= 0 || !isdigit((unsigned char)buf[n - 1]))
+            return -1;
+        for (int k = 0; k < n; k++)
+            JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
         break;
     case ARMAS_JSON_TRUE:
         JSON_ONERROR(armas_ios_putchar(writer, 't'));
-- 
2.43.0


From 744d75388837cd8cf6920e21a36c9662140f1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 156/245] fix: mmload: banner with consecutive blanks was
 rejected, non-banner line could be taken as one

---
 src/io/iomm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..d98034d 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -158,7 +158,7 @@ int __mmread_banner(FILE *f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -168,9 +168,11 @@ int __mmread_banner(FILE *f, int *typecode)
     int ready = 0;
     code = 0;
     s = iob;
-    for (n = 0, tok = strsep(&s, " "); tok && ready == 0; tok = strsep(&s, " "), n++) {
+    for (n = 0, tok = strsep(&s, " \t\r"); tok && ready == 0; tok = strsep(&s, " \t\r")) {
+        if (*tok == '\0')
+            continue;  // consecutive separators
         nc = find_key(strlower(tok));
-        switch (n) {
+        switch (n++) {
         case 0:
             // %%MatrixMarket
             if (nc != ARMAS_MM_HEADER)
-- 
2.43.0


From 9e71e520f5720152a32c39af4864d9425c9a5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 157/245] fix: mmload: size line was not validated, read
 outside of the line buffer, failing allocation not detected

---
 src/io/iomm.c | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index d98034d..8ea95ed 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -8,6 +8,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "dtype.h"
 
@@ -210,6 +211,14 @@ int __mmread_banner(FILE *f, int *typecode)
     return 0;
 }
 
+static inline
+int is_blank(const char *s)
+{
+    while (isspace((unsigned char)*s))
+        s++;
+    return *s == '\0';
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -219,28 +228,30 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *)0;
     char *cp, *endptr;
-    int nread;
+    long dims[3] = {0, 0, 0};
+    int nread, k, ndims;
     size_t ioblen = 0;
 
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
+        if (iob[0] != '%' && !is_blank(iob))
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
-        cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz =strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+    if (nread == -1) {
+        free(iob);
+        return -1;
+    }
+    ndims = (typecode & ARMAS_MM_COORDINATE) != 0 ? 3 : 2;
+    for (k = 0, cp = iob; k < ndims; k++, cp = endptr) {
+        dims[k] = strtol(cp, &endptr, 10);
+        if (endptr == cp || dims[k] < 0 || dims[k] > INT_MAX)
+            break;
     }
     free(iob);
+    if (k < ndims)
+        return -1;
+    *m = (int)dims[0];
+    *n = (int)dims[1];
+    *nnz = (int)dims[2];
     return 0;
 }
 
@@ -286,7 +297,10 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    armas_init(A, m, n);
+    // all elements must fit in one matrix
+    if (!armas_init(A, m, n)) {
+        return -1;
+    }
 
     // number of elements to expect
     nelem = nnz;
-- 
2.43.0


From d370d48df42d27a55791025e287a38dac6a53c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 158/245] fix: mmload: malformed element lines were accepted
 with stale values, line after the matrix consumed, elements leaked on error

---
 src/io/iomm.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 8ea95ed..6584649 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -312,12 +312,13 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
     c =  k = 0;
     r = -1;
     nc = m;  // for lower triangular storage index for next column
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nelem) {
-        if (*iobuf == '%')
+    // do not consume lines following the last element
+    while (k < nelem && (nread = getline(&iobuf, &ioblen, f)) != -1) {
+        if (*iobuf == '%' || is_blank(iobuf))
             continue;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
             //v = strtod(iobuf, &endptr);
-            if (read_value(iobuf, &v) < 0)
+            if (read_value(iobuf, &v) != 1)
                 goto endloop;
 
             if ((typecode & ARMAS_MM_SYMMETRIC) != 0) {
@@ -337,7 +338,7 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             }
         }
         else {
-            if (read_line(iobuf, &r, &c, &v) < 0)
+            if (read_line(iobuf, &r, &c, &v) != 3)
                 goto endloop;
             // indexing starting from 1
             r--; c--;
@@ -352,8 +353,10 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    if (k != nelem) {
+        armas_release(A);
         return -1;
+    }
 
     return typecode;
 }
-- 
2.43.0


From 3d56067e0144970620d30b59df9d3484105b3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 159/245] fix: mmload: storage layout flags were not set

---
 src/io/iomm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6584649..d767e89 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -358,6 +358,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
+    if (flags)
+        *flags = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? ARMAS_SYMM : 0;
     return typecode;
 }
 
-- 
2.43.0


From c6c8f4c754a338d54cf614887f07bb89a55fbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 160/245] fix: mmdump: write errors were not reported

---
 src/io/iomm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index d767e89..7e09a55 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -368,18 +368,23 @@ int armas_mmdump(FILE *f, const armas_dense_t *A, int flags)
 {
     char *s = "general";
     char *t = TYPE_STRING;
-    int n, j, k;
+    int n, j, k, nc;
 
     if  ((flags & ARMAS_SYMM) != 0)
         s = "symmetric";
 
-    n  = fprintf(f, "%%%%Matrixmarket matrix array %s %s\n", t, s);
-    n += fprintf(f, "%d %d\n", A->rows, A->cols);
+    if ((n = fprintf(f, "%%%%Matrixmarket matrix array %s %s\n", t, s)) < 0)
+        return -1;
+    if ((nc = fprintf(f, "%d %d\n", A->rows, A->cols)) < 0)
+        return -1;
+    n += nc;
 
     for (j = 0; j < A->cols; j++) {
         k = (flags & ARMAS_SYMM) != 0 ? j : 0;
         for ( ; k < A->rows; k++) {
-            n += fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j));
+            if ((nc = fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j))) < 0)
+                return -1;
+            n += nc;
         }
     }
     return n;
-- 
2.43.0


From cb33929f9f57f920ef5b5b629c5bf4d285442147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 161/245] fix: armassp_mmload: banner with consecutive blanks
 was rejected, non-banner line could be taken as one

---
 src/sparse/io.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..cc19c92 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -91,7 +91,7 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -101,10 +101,12 @@ int armasio_mmread_banner(FILE * f, int *typecode)
     int ready = 0;
     code = 0;
     s = iob;
-    for (n = 0, tok = strsep(&s, " "); tok && ready == 0;
-         tok = strsep(&s, " "), n++) {
+    for (n = 0, tok = strsep(&s, " \t\r"); tok && ready == 0;
+         tok = strsep(&s, " \t\r")) {
+        if (*tok == '\0')
+            continue;  // consecutive separators
         nc = find_key(strlower(tok));
-        switch (n) {
+        switch (n++) {
         case 0:
             // %%MatrixMarket
             if (nc != ARMAS_MM_HEADER)
-- 
2.43.0


From b65004dde93ad3e2388226625fd0cbdc9e3b68d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 162/245] fix: armassp_mmload: size line was not validated,
 read outside of the line buffer

---
 src/sparse/io.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index cc19c92..61a7ea3 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -26,6 +26,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "matrix.h"
 #include "sparse.h"
@@ -145,6 +146,14 @@ int armasio_mmread_banner(FILE * f, int *typecode)
     return 0;
 }
 
+static inline
+int is_blank(const char *s)
+{
+    while (isspace((unsigned char)*s))
+        s++;
+    return *s == '\0';
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -154,28 +163,30 @@ int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *) 0;
     char *cp, *endptr;
-    int nread;
+    long dims[3] = {0, 0, 0};
+    int nread, k, ndims;
     size_t ioblen = 0;
 
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
+        if (iob[0] != '%' && !is_blank(iob))
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
-        cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz = strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+    if (nread == -1) {
+        free(iob);
+        return -1;
+    }
+    ndims = (typecode & ARMAS_MM_COORDINATE) != 0 ? 3 : 2;
+    for (k = 0, cp = iob; k < ndims; k++, cp = endptr) {
+        dims[k] = strtol(cp, &endptr, 10);
+        if (endptr == cp || dims[k] < 0 || dims[k] > INT_MAX)
+            break;
     }
     free(iob);
+    if (k < ndims)
+        return -1;
+    *m = (int)dims[0];
+    *n = (int)dims[1];
+    *nnz = (int)dims[2];
     return 0;
 }
 
-- 
2.43.0


From 85c5f1e1d89bbf67ea4986ccc48bc778b827b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 163/245] fix: armassp_init: matrix without elements lost its
 dimensions and kind; negative sizes, leak on failure

---
 src/include/sparse.h |  2 +-
 src/sparse/util.c    | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 8a4370a..f6dfeb6 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -174,7 +174,7 @@ size_t armassp_bytes_needed(int rows, int cols,
     if (kind == ARMASSP_COO)
         return nnz*sizeof(coo_elem_t);
     int n = kind == ARMASSP_CSR ? rows : cols;
-    return __align64(nnz*sizeof(DTYPE) + sizeof(int)*(nnz + n+1));
+    return __align64(nnz*sizeof(DTYPE) + sizeof(int)*((size_t)nnz + n + 1));
 }
 
 /**
diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..25d6f83 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -99,12 +99,11 @@ int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
 armas_sparse_t *armassp_init(armas_sparse_t * A, int rows, int cols,
                                  int nnz, armassp_type_enum storage)
 {
-    if (rows == 0 || cols == 0 || nnz == 0) {
-        armassp_clear(A);
-        return A;
-    }
+    if (rows < 0 || cols < 0 || nnz < 0)
+        return (armas_sparse_t *) 0;
     size_t nbytes = armassp_bytes_needed(rows, cols, nnz, storage);
-    void *data = calloc(nbytes, 1);
+    // matrix without elements still has dimensions and index pointers
+    void *data = calloc(nbytes > 0 ? nbytes : 1, 1);
     if (!data)
         return (armas_sparse_t *) 0;
     armassp_make(A, rows, cols, nnz, storage, data, nbytes);
@@ -118,7 +117,11 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
         (armas_sparse_t *) calloc(1, sizeof(armas_sparse_t));
     if (!A)
         return A;
-    return armassp_init(A, rows, cols, nnz, kind);
+    if (!armassp_init(A, rows, cols, nnz, kind)) {
+        free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
-- 
2.43.0


From 0bbb1d8e4964d36c0417c46d84dda30e66cc0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 164/245] fix: armassp_mmload: truncated and malformed files
 and indexes outside of matrix were accepted

---
 src/sparse/io.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 61a7ea3..3fe8960 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -202,7 +202,7 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 {
     int tc;
     int m, n, nnz;
-    char *iobuf, *bp, *endptr;
+    char *iobuf;
     size_t ioblen;
     armas_sparse_t *A;
 
@@ -227,14 +227,16 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     iobuf = (char *) 0;
     int nread, k = 0;
     double v;
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
-        bp = iobuf;
-        m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
+    // do not consume lines following the last element
+    while (k < nnz && (nread = getline(&iobuf, &ioblen, f)) != -1) {
+        if (*iobuf == '%' || is_blank(iobuf))
+            continue;
+        if (sscanf(iobuf, "%d %d %lf", &m, &n, &v) != 3)
+            break;
+        if (m < 1 || m > A->rows || n < 1 || n > A->cols)
+            break;
+        if (armassp_append(A, m - 1, n - 1, v) < 0)
+            break;
 #if 0
         if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
             armassp_append(A, n - 1, m - 1, v);
@@ -246,6 +248,11 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     if (iobuf)
         free(iobuf);
 
+    if (k < nnz) {
+        // malformed or missing elements
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
-- 
2.43.0


From 0c6143c4ee0cec231458e6e0f599a62a46fe9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 165/245] fix: armassp_resize: size smaller than element count
 overflowed the new buffer, size of block not updated

---
 src/sparse/util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 25d6f83..550e996 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -131,13 +131,16 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
 int armassp_resize(armas_sparse_t * A, int newsize)
 {
     if (A->kind == ARMASSP_COO) {
-        coo_elem_t *nb = (coo_elem_t *) calloc(newsize, sizeof(coo_elem_t));
+        if (newsize < A->nnz)
+            return -1;
+        coo_elem_t *nb = (coo_elem_t *) calloc(newsize > 0 ? newsize : 1, sizeof(coo_elem_t));
         if (!nb)
             return -1;
         memcpy(nb, A->elems.ep, A->nnz * sizeof(coo_elem_t));
         free(A->elems.ep);
         A->elems.ep = nb;
         A->size = newsize;
+        A->__nbytes = newsize * sizeof(coo_elem_t);
         return 0;
     }
     // others not yet supported
-- 
2.43.0


From fcb4df88290015f4d54e3ccd1d2e0d8b8aa3779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 166/245] fix: armassp_append: indexes outside of the matrix
 were accepted

---
 src/sparse/util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 550e996..2cadad9 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -155,6 +155,8 @@ int armassp_append(armas_sparse_t * A, int m, int n, DTYPE v)
 {
     if (A->kind != ARMASSP_COO)
         return -1;
+    if (m < 0 || m >= A->rows || n < 0 || n >= A->cols)
+        return -1;
 
     if (A->nnz == A->size) {
         if (armassp_resize(A, A->size + 64) < 0)
-- 
2.43.0


From ef2e3ee5d7fb6a32deaf7e8ba0dcab45256a779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 167/245] fix: armassp_mmdump: indexes written zero based while
 matrix market and armassp_mmload use one based indexes

---
 src/sparse/io.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 3fe8960..20ed5f2 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -278,7 +278,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
     int n;
     char *s = "general";
 
-    if ((flags & MM_SYMMETRIC) != 0)
+    if ((flags & ARMAS_MM_SYMMETRIC) != 0)
         s = "symmetric";
 
     switch (A->kind) {
@@ -286,7 +286,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
                          A->elems.ep[k].val);
         }
         break;
@@ -295,7 +295,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+                n += fprintf(f, "%d %d %.13e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
             }
         }
         break;
@@ -304,7 +304,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+                n += fprintf(f, "%d %d %.13e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
             }
         }
         break;
-- 
2.43.0


From e3b83fb5ae02d4a976f596f4ce026bbe38ca930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 168/245] fix: armassp_convert_to/transpose_to: dimensions of
 target and its old index pointers were used for the result

---
 src/sparse/convert.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..1875a06 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -223,7 +223,7 @@ void csr_convert(armas_sparse_t * A, const armas_sparse_t * B)
 armas_sparse_t *armassp_convert_to(
     armas_sparse_t * A, const armas_sparse_t * B, armassp_type_enum target)
 {
-    if (!B)
+    if (!B || !A)
         return (armas_sparse_t *) 0;
 
     // only conversion to CSR or CSC supported
@@ -238,8 +238,9 @@ armas_sparse_t *armassp_convert_to(
     if (!armassp_test_structure(A, B->rows, B->cols, B->nnz, target)) {
         return (armas_sparse_t *) 0;
     }
-    // init internal arrays
-    armassp_init_arrays(A, B->rows, B->cols, B->nnz, target);
+    // init internal arrays; dimensions and kind are those of the result
+    armassp_init_structure(A, B->rows, B->cols, B->nnz, target);
+    memset(A->ptr, 0, (A->nptr + 1) * sizeof(int));
 
     switch (B->kind) {
     case ARMASSP_COO:
-- 
2.43.0


From a9a44dc00a07136e6d8fad3bbbe704291b99f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 169/245] fix: armassp_convert: conversion to the storage
 format of the source returned matrix without elements

---
 src/sparse/convert.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 1875a06..c8ea002 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -253,13 +253,15 @@ armas_sparse_t *armassp_convert_to(
     case ARMASSP_CSC:
         if (target == ARMASSP_CSR)
             csc_to_csr(A, B);
-        // target CSC implies copying ...
+        else
+            armassp_copy_to(A, B);
         break;
     case ARMASSP_CSR:
     default:
         if (target == ARMASSP_CSC)
             csr_to_csc(A, B);
-        // target CSR implies copying ...
+        else
+            armassp_copy_to(A, B);
         break;
     }
     return A;
-- 
2.43.0


From 851bb42178d9620db1b576c5166a9e640c24ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 170/245] fix: armassp_convert/transpose/mkcopy: new matrix
 leaked when operation fails

---
 src/sparse/convert.c | 12 ++++++++++--
 src/sparse/copy.c    |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index c8ea002..202ebe6 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -283,7 +283,11 @@ armas_sparse_t *armassp_convert(const armas_sparse_t * B,
                                     armassp_type_enum target)
 {
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, target);
-    return armassp_convert_to(A, B, target);
+    if (!armassp_convert_to(A, B, target)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -326,7 +330,11 @@ armas_sparse_t *armassp_transpose(const armas_sparse_t * B)
     armassp_type_enum t = B->kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC;
     // make space reservation as if converted to other storage format
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, t);
-    return armassp_transpose_to(A, B);
+    if (!armassp_transpose_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code."
diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..d0c510d 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -70,7 +70,11 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
 armas_sparse_t *armassp_mkcopy(const armas_sparse_t * B)
 {
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, B->kind);
-    return armassp_copy_to(A, B);
+    if (!armassp_copy_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code!"
-- 
2.43.0


From 7a874d5b8571a979c1831fc5b07e5d4e56492ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 171/245] fix: armassp_copy_to: result kept dimensions, kind
 and element count of the target

---
 src/sparse/copy.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index d0c510d..a6f845e 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -21,6 +21,7 @@
 
 #include "matrix.h"
 #include "sparse.h"
+#include "splocal.h"
 
 /**
  * @brief Make A = B
@@ -41,6 +42,7 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
     switch (B->kind) {
     case ARMASSP_CSC:
     case ARMASSP_CSR:
+        armassp_init_structure(A, B->rows, B->cols, B->nnz, B->kind);
         Ae = A->elems.v;
         Be = B->elems.v;
         for (int k = 0; k < B->nnz; k++) {
@@ -57,6 +59,13 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         for (int k = 0; k < B->nnz; k++) {
             A->elems.ep[k] = B->elems.ep[k];
         }
+        A->ptr = A->ix = (int *)0;
+        A->nptr = 0;
+        A->rows = B->rows;
+        A->cols = B->cols;
+        A->nnz = B->nnz;
+        A->size = armassp_nbytes(A) / sizeof(coo_elem_t);
+        A->kind = B->kind;
         break;
     }
     return A;
-- 
2.43.0


From 40d37e3ef870425478ce656f7eb8f59f9897b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 172/245] fix: armassp_mmdump: write errors were not reported

---
 src/sparse/io.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 20ed5f2..22c1f91 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -270,12 +270,12 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
  *   If *ARMAS_MM_SYMMETRIC* then matrix market banner reports as
  *   symmetric matrix.
  *
- * @return Number of bytes writen.
+ * @return Number of bytes writen, <0 on write error.
  * @ingroup sparse
  */
 int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 {
-    int n;
+    int n, nc;
     char *s = "general";
 
     if ((flags & ARMAS_MM_SYMMETRIC) != 0)
@@ -283,28 +283,43 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 
     switch (A->kind) {
     case ARMASSP_COO:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
+        if ((n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s)) < 0)
+            return -1;
+        if ((nc = fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz)) < 0)
+            return -1;
+        n += nc;
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
-                         A->elems.ep[k].val);
+            if ((nc = fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
+                         A->elems.ep[k].val)) < 0)
+                return -1;
+            n += nc;
         }
         break;
     case ARMASSP_CSR:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
+        if ((n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s)) < 0)
+            return -1;
+        if ((nc = fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz)) < 0)
+            return -1;
+        n += nc;
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
+                if ((nc = fprintf(f, "%d %d %.13e\n", i + 1, A->ix[k] + 1, A->elems.v[k])) < 0)
+                    return -1;
+                n += nc;
             }
         }
         break;
     case ARMASSP_CSC:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
+        if ((n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s)) < 0)
+            return -1;
+        if ((nc = fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz)) < 0)
+            return -1;
+        n += nc;
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
+                if ((nc = fprintf(f, "%d %d %.13e\n", A->ix[k] + 1, j + 1, A->elems.v[k])) < 0)
+                    return -1;
+                n += nc;
             }
         }
         break;
-- 
2.43.0


From 5c1bfe39f8f863f96e5cd12764b677c8f6d21fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 173/245] fix: armassp_hasdiag: wrong elements, also outside of
 the index arrays, were tested for off-diagonals

---
 src/sparse/util.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 2cadad9..ff89a1e 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -176,7 +176,7 @@ int armassp_append(armas_sparse_t * A, int m, int n, DTYPE v)
  */
 int armassp_hasdiag(const armas_sparse_t * A, int diag)
 {
-    int i, j, start, end, p, roff, coff;
+    int i, j, start, end, p;
     int nc = 0;
 
     if (!A || A->rows != A->cols)
@@ -188,19 +188,17 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
 
     switch (A->kind) {
     case ARMASSP_COO:
-        roff = diag < 0 ? 0 : diag;
-        coff = diag > 0 ? 0 : diag;
         nc = diag < 0 ? A->rows + diag : A->cols - diag;
         for (i = 0; i < A->nnz; i++) {
-            if (A->elems.ep[i].i + coff == A->elems.ep[i].j + roff)
+            if (A->elems.ep[i].j - A->elems.ep[i].i == diag)
                 nc--;
         }
         break;
     case ARMASSP_CSC:
         start = diag > 0 ? diag : 0;
-        end = diag < 0 ? A->cols - diag : A->cols;
+        end = diag < 0 ? A->cols + diag : A->cols;
         nc = end - start;
-        for (i = 0, j = start; j < end; i++, j++) {
+        for (i = start - diag, j = start; j < end; i++, j++) {
             for (p = armassp_index(A, j); p < armassp_index(A, j + 1); p++) {
                 if (armassp_at(A, p) == i) {
                     nc--;
@@ -213,7 +211,7 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
         start = diag < 0 ? -diag : 0;
         end = diag > 0 ? A->rows - diag : A->rows;
         nc = end - start;
-        for (j = 0, i = start; i < end; i++, j++) {
+        for (j = start + diag, i = start; i < end; i++, j++) {
             for (p = armassp_index(A, i); p < armassp_index(A, i + 1); p++) {
                 if (armassp_at(A, p) == j) {
                     nc--;
-- 
2.43.0


From 6842bac48e2c776b27c4b81aef7fe51649f58e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 174/245] fix: mmload: coordinate index INT_MIN overflowed

---
 src/io/iomm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 7e09a55..7acfc44 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -341,7 +341,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             if (read_line(iobuf, &r, &c, &v) != 3)
                 goto endloop;
             // indexing starting from 1
-            r--; c--;
+            r = r > 0 ? r - 1 : -1;
+            c = c > 0 ? c - 1 : -1;
         }
         if (r >= 0 && r < A->rows && c >= 0 && c < A->cols)
             armas_set_unsafe(A, r, c, v);
-- 
2.43.0


From d7399a7f2289361db4ed6fc8ada7da383207e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 175/245] fix: json: reading a document without rows took time
 proportional to the column count

---
 src/io/json_base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1a5400a..8a9913e 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -185,6 +185,9 @@ int armas_json_read_data(armas_dense_t *A, armas_iostream_t *ios, char *iob, siz
 {
     int tok, n = 0;
     double dval;
+
+    if (A->rows == 0)
+        return 0;
     for (int j = 0; j < A->cols; j++) {
         for (int i = 0; i < A->rows; i++, n++) {
             if (n > 0) {
-- 
2.43.0


From 9d1ed4bf1437f9cd35303d6af0078d2bbf619ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 176/245] fix: armassp_mvmult: length of y was not checked

---
 src/sparse/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..5080d13 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -97,8 +97,8 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-- 
2.43.0


From 5a75a2876cf7d65f9e8d4339f8b1c4f81bfa6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 177/245] fix: armassp_mvmult: flags other than ARMAS_TRANS
 selected the transposed product

---
 src/sparse/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 5080d13..72a8aa0 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -29,7 +29,7 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
 
         for (int i = 0; i < A->rows; i++)
             y[i] *= beta;
@@ -59,7 +59,7 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
         // y + alpha*A*x
         for (int j = 0; j < A->rows; j++) {
             ax = 0;
-- 
2.43.0


From 9b6ccf25694eddc69f0b6b9da004b630e44ea8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 178/245] fix: armassp_mvmult: transposed CSR product scaled
 rows(A) elements of y of length cols(A)

---
 src/sparse/gemv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 72a8aa0..b721260 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -70,7 +70,7 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
         }
     } else {
         // y + alpha*A^T*x
-        for (int i = 0; i < A->rows; i++)
+        for (int i = 0; i < A->cols; i++)
             y[i] *= beta;
 
         // update with linear combinations of A's rows
-- 
2.43.0


From 53c949968c9397ca74b6f93772c1e250629f9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 179/245] fix: armassp_mvmult: row vector operands were
 accessed as columns

---
 src/sparse/gemv.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index b721260..3a33fc5 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -25,20 +25,20 @@
 
 // CSC storage
 static
-int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
-               const DTYPE * x, int flags)
+int csc_mvmult(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
+               const armas_sparse_t * A, const DTYPE * x, int incx, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
     if ((flags & ARMAS_TRANS) == 0) {
 
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i * incy] *= beta;
 
         // update with linear combinations of A's columns
         for (int j = 0; j < A->cols; j++) {
-            ax = alpha * x[j];
+            ax = alpha * x[j * incx];
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                y[A->ix[k]] += ax * Ae[k];
+                y[A->ix[k] * incy] += ax * Ae[k];
             }
         }
     } else {
@@ -46,17 +46,17 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
         for (int j = 0; j < A->cols; j++) {
             ax = 0;
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                ax += Ae[k] * x[A->ix[k]];
+                ax += Ae[k] * x[A->ix[k] * incx];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j * incy] = beta * y[j * incy] + alpha * ax;
         }
     }
     return 0;
 }
 
 static
-int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
-               const DTYPE * x, int flags)
+int csr_mvmult(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
+               const armas_sparse_t * A, const DTYPE * x, int incx, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
     if ((flags & ARMAS_TRANS) == 0) {
@@ -64,20 +64,20 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
         for (int j = 0; j < A->rows; j++) {
             ax = 0;
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                ax += Ae[k] * x[A->ix[k]];
+                ax += Ae[k] * x[A->ix[k] * incx];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j * incy] = beta * y[j * incy] + alpha * ax;
         }
     } else {
         // y + alpha*A^T*x
         for (int i = 0; i < A->cols; i++)
-            y[i] *= beta;
+            y[i * incy] *= beta;
 
         // update with linear combinations of A's rows
         for (int j = 0; j < A->rows; j++) {
-            ax = alpha * x[j];
+            ax = alpha * x[j * incx];
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                y[A->ix[k]] += ax * Ae[k];
+                y[A->ix[k] * incy] += ax * Ae[k];
             }
         }
     }
@@ -104,14 +104,23 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
         cf->error = ARMAS_ESIZE;
         return -1;
     }
+    if (armas_size(y) == 0)
+        return 0;
+    if (!armas_isvector(y) || (armas_size(x) > 0 && !armas_isvector(x))) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -1;
+    }
     DTYPE *yd = armas_data(y);
     DTYPE *xd = armas_data(x);
+    // elements of row vectors are not adjacent
+    int incy = y->cols == 1 ? 1 : y->step;
+    int incx = x->cols == 1 ? 1 : x->step;
 
     switch (A->kind) {
     case ARMASSP_CSC:
-        return csc_mvmult(beta, yd, alpha, A, xd, flags);
+        return csc_mvmult(beta, yd, incy, alpha, A, xd, incx, flags);
     case ARMASSP_CSR:
-        return csr_mvmult(beta, yd, alpha, A, xd, flags);
+        return csr_mvmult(beta, yd, incy, alpha, A, xd, incx, flags);
     default:
         break;
     }
-- 
2.43.0


From 8200c4a11f6b638e4dd767d2a5fa46553dfc81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 180/245] fix: armassp_mvmult: NaN in y survived multiplication
 with zero beta

---
 src/sparse/gemv.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 3a33fc5..ce0265a 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -32,7 +32,7 @@ int csc_mvmult(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
     if ((flags & ARMAS_TRANS) == 0) {
 
         for (int i = 0; i < A->rows; i++)
-            y[i * incy] *= beta;
+            y[i * incy] = beta == ZERO ? ZERO : beta * y[i * incy];
 
         // update with linear combinations of A's columns
         for (int j = 0; j < A->cols; j++) {
@@ -48,7 +48,8 @@ int csc_mvmult(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
                 ax += Ae[k] * x[A->ix[k] * incx];
             }
-            y[j * incy] = beta * y[j * incy] + alpha * ax;
+            y[j * incy] =
+                (beta == ZERO ? ZERO : beta * y[j * incy]) + alpha * ax;
         }
     }
     return 0;
@@ -66,12 +67,13 @@ int csr_mvmult(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
                 ax += Ae[k] * x[A->ix[k] * incx];
             }
-            y[j * incy] = beta * y[j * incy] + alpha * ax;
+            y[j * incy] =
+                (beta == ZERO ? ZERO : beta * y[j * incy]) + alpha * ax;
         }
     } else {
         // y + alpha*A^T*x
         for (int i = 0; i < A->cols; i++)
-            y[i * incy] *= beta;
+            y[i * incy] = beta == ZERO ? ZERO : beta * y[i * incy];
 
         // update with linear combinations of A's rows
         for (int j = 0; j < A->rows; j++) {
-- 
2.43.0


From 15b97d712e41cf8f056eda61e204ac4afef233ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 181/245] fix: armassp_mvmult_sym: length of y and squareness
 of A were not checked

---
 src/sparse/symv.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..de87a89 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -192,10 +192,8 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols
+        && armas_size(y) == A->rows && armas_size(x) == A->cols;
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-- 
2.43.0


From a249c272e972c1f1001fa04c5ec20353eadf9695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 182/245] fix: armassp_mvmult_sym: element of next or previous
 column was used if diagonal was not stored

---
 src/sparse/symv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index de87a89..b4b5c41 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -110,10 +110,10 @@ int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
     for (j = 0; j < A->cols; j++) {
         ax = alpha * x[j];
         // skip element above diagonal (CSC) and below diagonal (CSR) 
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k < A->ptr[j + 1] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k++;
         }
@@ -142,10 +142,10 @@ int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
     for (j = A->cols - 1; j >= 0; j--) {
         ax = alpha * x[j];
         // skip rows below diagonal
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j && k >= A->ptr[j]; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k >= A->ptr[j] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k--;
         }
-- 
2.43.0


From c9d6f582881ef7509ffd736887774ec7ee7b3728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 183/245] fix: armassp_mvmult_sym: row vector operands were
 accessed as columns

---
 src/sparse/symv.c | 49 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index b4b5c41..3ea461d 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -96,64 +96,64 @@ int csr_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
 
 // CSC lower triangular == CSR upper triangular
 static
-int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
+int csc_mvmult_lsym(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
+                    const armas_sparse_t * A, const DTYPE * x, int incx)
 {
     int j, k;
     DTYPE yk, ax, *Ae = A->elems.v;
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i * incy] *= beta;
     }
     // update with linear combinations of A's columns
     for (j = 0; j < A->cols; j++) {
-        ax = alpha * x[j];
+        ax = alpha * x[j * incx];
         // skip element above diagonal (CSC) and below diagonal (CSR) 
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         //
         yk = 0.0;
         if (k < A->ptr[j + 1] && A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
+            yk = x[A->ix[k] * incx] * Ae[k];
             k++;
         }
         for (; k < A->ptr[j + 1]; k++) {
-            yk += x[A->ix[k]] * Ae[k];
-            y[A->ix[k]] += ax * Ae[k];
+            yk += x[A->ix[k] * incx] * Ae[k];
+            y[A->ix[k] * incy] += ax * Ae[k];
         }
-        y[j] += alpha * yk;
+        y[j * incy] += alpha * yk;
     }
     return 0;
 }
 
 // CSC upper triangular == CSR lower triangular
 static
-int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
+int csc_mvmult_usym(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
+                    const armas_sparse_t * A, const DTYPE * x, int incx)
 {
     int i, j, k;
     DTYPE yk, ax, *Ae = A->elems.v;
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i * incy] *= beta;
     }
     // update with linear combinations of A's columns
     for (j = A->cols - 1; j >= 0; j--) {
-        ax = alpha * x[j];
+        ax = alpha * x[j * incx];
         // skip rows below diagonal
         for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         //
         yk = 0.0;
         if (k >= A->ptr[j] && A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
+            yk = x[A->ix[k] * incx] * Ae[k];
             k--;
         }
         for (i = A->ptr[j]; i <= k; i++) {
-            yk += x[A->ix[i]] * Ae[i];
-            y[A->ix[i]] += ax * Ae[i];
+            yk += x[A->ix[i] * incx] * Ae[i];
+            y[A->ix[i] * incy] += ax * Ae[i];
         }
-        y[j] += alpha * yk;
+        y[j * incy] += alpha * yk;
     }
     return 0;
 }
@@ -199,23 +199,32 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (A->rows == 0)
+        return 0;
+    if (!armas_isvector(y) || !armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     DTYPE *yd = armas_data(y);
     DTYPE *xd = armas_data(x);
+    // elements of row vectors are not adjacent
+    int incy = y->cols == 1 ? 1 : y->step;
+    int incx = x->cols == 1 ? 1 : x->step;
 
     switch (flags & (ARMAS_LOWER | ARMAS_UPPER)) {
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR) {
-            return csc_mvmult_lsym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_lsym(beta, yd, incy, alpha, A, xd, incx);
         } else {
-            return csc_mvmult_usym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_usym(beta, yd, incy, alpha, A, xd, incx);
         }
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR) {
-            return csc_mvmult_usym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_usym(beta, yd, incy, alpha, A, xd, incx);
         } else {
-            return csc_mvmult_lsym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_lsym(beta, yd, incy, alpha, A, xd, incx);
         }
         break;
     }
-- 
2.43.0


From e1f5c781f89c0b33cccaae4226be490226bd3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 184/245] fix: armassp_mvmult_sym: NaN in y survived
 multiplication with zero beta

---
 src/sparse/symv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 3ea461d..ff19aad 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -104,7 +104,7 @@ int csc_mvmult_lsym(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i * incy] *= beta;
+            y[i * incy] = beta == ZERO ? ZERO : beta * y[i * incy];
     }
     // update with linear combinations of A's columns
     for (j = 0; j < A->cols; j++) {
@@ -136,7 +136,7 @@ int csc_mvmult_usym(DTYPE beta, DTYPE * y, int incy, DTYPE alpha,
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i * incy] *= beta;
+            y[i * incy] = beta == ZERO ? ZERO : beta * y[i * incy];
     }
     // update with linear combinations of A's columns
     for (j = A->cols - 1; j >= 0; j--) {
-- 
2.43.0


From 3c87280b59a9fd8fbce22e3aff0ea3b9dec0bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 185/245] fix: armassp_mvmult_trm: elements of other columns
 were used if diagonal was not stored

---
 src/sparse/trmv.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..b541227 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -31,14 +31,13 @@ int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     // start from upper left corner; update with linear combination
     for (int j = 0; j < A->cols; j++) {
         xj = x[j];
-        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j; k++) {
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++) {
             x[A->ix[k]] += alpha * Ae[k] * xj;
         }
         if (unit) {
             x[j] = alpha * xj;
         } else {
-            // k-1 in index to last row in this column; if on diagonal 
-            x[j] = A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
+            x[j] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -54,7 +53,7 @@ int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = 0; j < A->rows; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip positions below diagonal; if unit diagonal then skip diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += Ae[k] * x[A->ix[k]];
         }
@@ -96,7 +95,7 @@ int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k >= A->ptr[j] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -112,7 +111,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = A->cols - 1; j >= 0; j--) {
         xj = x[j];
         // skip position above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         // update x rows below diagonal
         for (i = k; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] += alpha * Ae[i] * xj;
@@ -121,7 +120,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -152,7 +151,7 @@ int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (j = 0; j < A->cols; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip rows above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += A->elems.v[k] * x[A->ix[k]];
         }
@@ -176,7 +175,7 @@ int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+            x[j] = p < A->ptr[j + 1] && A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
         }
     }
     return 0;
-- 
2.43.0


From 7a0e2aecf526f1b98c859bc65b4c7a496ff7e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 186/245] fix: armassp_mvmult_trm: squareness of A was not
 checked, error code was not set

---
 src/sparse/trmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index b541227..9bc57b8 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -208,12 +208,14 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
     if (!cf)
         cf = armas_conf_default();
 
-    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
+    }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
-- 
2.43.0


From ad980972a164300acd0e96316e06cb11c2a61a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 187/245] fix: armassp_mvmult_trm: row vector operand was
 accessed as column

---
 src/sparse/trmv.c | 105 ++++++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 45 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 9bc57b8..e193089 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -24,20 +24,21 @@
 
 // b = alpha*A*x; A upper triangular
 static
-int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_un(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xj, *Ae = A->elems.v;
     int k;
     // start from upper left corner; update with linear combination
     for (int j = 0; j < A->cols; j++) {
-        xj = x[j];
+        xj = x[j * incx];
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++) {
-            x[A->ix[k]] += alpha * Ae[k] * xj;
+            x[A->ix[k] * incx] += alpha * Ae[k] * xj;
         }
         if (unit) {
-            x[j] = alpha * xj;
+            x[j * incx] = alpha * xj;
         } else {
-            x[j] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j * incx] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -45,57 +46,60 @@ int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // b = alpha*A*x; A upper triangular
 static
-int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_un(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xv, *Ae = A->elems.v;
     int k;
     // start from upper left corner
     for (int j = 0; j < A->rows; j++) {
-        xv = unit != 0 ? x[j] : 0.0;
+        xv = unit != 0 ? x[j * incx] : 0.0;
         // skip positions below diagonal; if unit diagonal then skip diagonal
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+            xv += Ae[k] * x[A->ix[k] * incx];
         }
-        x[j] = alpha * xv;
+        x[j * incx] = alpha * xv;
     }
     return 0;
 }
 
 // b = alpha*A^T*x; A upper triangular
 static
-int csc_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_ut(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     // start from lower right corner
     DTYPE xv, *Ae = A->elems.v;
     int j, k;
     for (j = A->cols - 1; j >= 0; j--) {
-        xv = unit != 0 ? x[j] : 0.0;
+        xv = unit != 0 ? x[j * incx] : 0.0;
         // per column only rows that are less or equal to column
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j - unit; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+            xv += Ae[k] * x[A->ix[k] * incx];
         }
-        x[j] = alpha * xv;
+        x[j * incx] = alpha * xv;
     }
     return 0;
 }
 
 static
-int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_ut(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xj, *Ae = A->elems.v;
     int k;
     // start from lower right corner
     for (int j = A->rows - 1; j >= 0; j--) {
-        xj = x[j];
+        xj = x[j * incx];
         for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--) {
-            x[A->ix[k]] += alpha * Ae[k] * xj;
+            x[A->ix[k] * incx] += alpha * Ae[k] * xj;
         }
         // diagonal element
         if (unit != 0) {
-            x[j] = alpha * xj;
+            x[j * incx] = alpha * xj;
         } else {
-            x[j] = k >= A->ptr[j] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j * incx] = k >= A->ptr[j] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -103,24 +107,25 @@ int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // b = alpha*A*x; A lower triangular
 static
-int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_ln(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xj, *Ae = A->elems.v;
     int i, k;
     // start from lower right corner
     for (int j = A->cols - 1; j >= 0; j--) {
-        xj = x[j];
+        xj = x[j * incx];
         // skip position above diagonal
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         // update x rows below diagonal
         for (i = k; i < A->ptr[j + 1]; i++) {
-            x[A->ix[i]] += alpha * Ae[i] * xj;
+            x[A->ix[i] * incx] += alpha * Ae[i] * xj;
         }
         // compute diagonal entry;
         if (unit != 0) {
-            x[j] = alpha * xj;
+            x[j * incx] = alpha * xj;
         } else {
-            x[j] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j * incx] = k < A->ptr[j + 1] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -128,54 +133,57 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // b = alpha*A*x; A lower triangular
 static
-int csr_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_ln(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xv, *Ae = A->elems.v;
     int k, j;
     for (j = A->rows - 1; j >= 0; j--) {
-        xv = unit ? x[j] : 0.0;
+        xv = unit ? x[j * incx] : 0.0;
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j - unit; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+            xv += Ae[k] * x[A->ix[k] * incx];
         }
-        x[j] = alpha * xv;
+        x[j * incx] = alpha * xv;
     }
     return 0;
 }
 
 // b = alpha*A^T*x; A lower triangular
 static
-int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_lt(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xv;
     int k, j;
     for (j = 0; j < A->cols; j++) {
-        xv = unit != 0 ? x[j] : 0.0;
+        xv = unit != 0 ? x[j * incx] : 0.0;
         // skip rows above diagonal
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
-            xv += A->elems.v[k] * x[A->ix[k]];
+            xv += A->elems.v[k] * x[A->ix[k] * incx];
         }
-        x[j] = alpha * xv;
+        x[j * incx] = alpha * xv;
     }
     return 0;
 }
 
 static
-int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_lt(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                  int unit)
 {
     DTYPE xj, *Ae = A->elems.v;
     int p;
     for (int j = 0; j < A->rows; j++) {
-        xj = x[j];
+        xj = x[j * incx];
         // update earlier rows with current entry
         for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
-            x[A->ix[p]] += alpha * Ae[p] * xj;
+            x[A->ix[p] * incx] += alpha * Ae[p] * xj;
         }
         // compute diagonal entry;
         if (unit != 0) {
-            x[j] = alpha * xj;
+            x[j * incx] = alpha * xj;
         } else {
-            x[j] = p < A->ptr[j + 1] && A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+            x[j * incx] = p < A->ptr[j + 1] && A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
         }
     }
     return 0;
@@ -221,35 +229,42 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
 
     int unit = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
 
+    if (A->rows == 0)
+        return 0;
+    if (!armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     DTYPE *y = armas_data(x);
+    // elements of row vectors are not adjacent
+    int incx = x->cols == 1 ? 1 : x->step;
 
-    // TODO: we assume column vector here; how about a row vector??
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_ut(y, alpha, A, unit);
+            csr_mvmult_ut(y, incx, alpha, A, unit);
         else
-            csc_mvmult_ut(y, alpha, A, unit);
+            csc_mvmult_ut(y, incx, alpha, A, unit);
         break;
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_un(y, alpha, A, unit);
+            csr_mvmult_un(y, incx, alpha, A, unit);
         else
-            csc_mvmult_un(y, alpha, A, unit);
+            csc_mvmult_un(y, incx, alpha, A, unit);
         break;
     case ARMAS_LOWER | ARMAS_TRANS:
     case ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_lt(y, alpha, A, unit);
+            csr_mvmult_lt(y, incx, alpha, A, unit);
         else
-            csc_mvmult_lt(y, alpha, A, unit);
+            csc_mvmult_lt(y, incx, alpha, A, unit);
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_ln(y, alpha, A, unit);
+            csr_mvmult_ln(y, incx, alpha, A, unit);
         else
-            csc_mvmult_ln(y, alpha, A, unit);
+            csc_mvmult_ln(y, incx, alpha, A, unit);
         break;
     }
     return 0;
-- 
2.43.0


From 2f81158a8408d2ab05e78144606a2abb41746960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 188/245] fix: armassp_mvsolve_trm: elements were skipped or
 taken from other columns if diagonal was not stored

---
 src/sparse/trsv.c | 82 ++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..9ad5176 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -31,9 +31,14 @@ int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j, k;
     for (j = A->cols - 1; j >= 0; j--) {
         // skip rows below diagonal;
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j; k--);
-        x[j] = unit ? x[j] : x[j] / Ae[k];
-        for (i = A->ptr[j]; i < k; i++) {
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
+        // diagonal element is zero or implicit if it is not stored
+        int stored = k >= A->ptr[j] && A->ix[k] == j;
+        if (!unit)
+            x[j] /= stored ? Ae[k] : ZERO;
+        if (stored)
+            k--;
+        for (i = A->ptr[j]; i <= k; i++) {
             x[A->ix[i]] -= Ae[i] * x[j];
         }
     }
@@ -50,11 +55,11 @@ int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         for (i = A->ptr[j + 1] - 1; i >= A->ptr[j] && A->ix[i] > j; i--) {
             xk += Ae[i] * x[A->ix[i]];
         }
-        // here Ax[i] == j
+        // here i is position of the diagonal if it is stored
         if (unit) {
             x[j] -= xk;
         } else {
-            x[j] = (x[j] - xk) / Ae[i];
+            x[j] = (x[j] - xk) / (i >= A->ptr[j] && A->ix[i] == j ? Ae[i] : ZERO);
         }
     }
     return 0;
@@ -68,14 +73,14 @@ int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         xk = 0;
-        for (i = A->ptr[j]; i < A->ptr[j + 1] - 1 && A->ix[i] < j; i++) {
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++) {
             xk += Ae[i] * x[A->ix[i]];
         }
-        // here Ax[i] == j
+        // here i is position of the diagonal if it is stored
         if (unit) {
             x[j] -= xk;
         } else {
-            x[j] = (x[j] - xk) / Ae[i];
+            x[j] = (x[j] - xk) / (i < A->ptr[j + 1] && A->ix[i] == j ? Ae[i] : ZERO);
         }
     }
     return 0;
@@ -87,10 +92,15 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int j, p;
     for (j = 0; j < A->rows; j++) {
-        // skip elements below diagonal; assume diagonal always exists
-        for (p = A->ptr[j]; A->ix[p] < j; p++);
-        x[j] = unit ? x[j] : (A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0);
-        for (p++; p < A->ptr[j + 1]; p++) {
+        // skip elements below diagonal
+        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++);
+        // diagonal element is zero or implicit if it is not stored
+        int stored = p < A->ptr[j + 1] && A->ix[p] == j;
+        if (!unit)
+            x[j] /= stored ? Ae[p] : ZERO;
+        if (stored)
+            p++;
+        for (; p < A->ptr[j + 1]; p++) {
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
@@ -104,11 +114,14 @@ int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         // skip elements above diagonal
-        for (i = A->ptr[j]; A->ix[i] < j; i++);
-        // compute diagonal; assumes non-zero ; A->ix[i] == j
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++);
+        // diagonal element is zero or implicit if it is not stored
+        int stored = i < A->ptr[j + 1] && A->ix[i] == j;
         if (!unit)
-            x[j] /= A->elems.v[i];
-        for (i += 1; i < A->ptr[j + 1]; i++) {
+            x[j] /= stored ? A->elems.v[i] : ZERO;
+        if (stored)
+            i++;
+        for (; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] -= A->elems.v[i] * x[j];
         }
     }
@@ -121,17 +134,14 @@ int csr_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int j, p;
 
-    if (!unit)
-        x[0] /= Ae[A->ptr[0]];
-
-    for (j = 1; j < A->rows; j++) {
+    for (j = 0; j < A->rows; j++) {
 
         for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
             x[j] -= Ae[p] * x[A->ix[p]];
         }
-        // compute diagonal; assumes non-zero ; A->ix[k] == j
+        // diagonal element is zero or implicit if it is not stored
         if (!unit)
-            x[j] /= Ae[p];
+            x[j] /= p < A->ptr[j + 1] && A->ix[p] == j ? Ae[p] : ZERO;
     }
     return 0;
 }
@@ -143,22 +153,16 @@ int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int i, j, k;
 
-    // skip elements above diagonal
-    for (i = A->ptr[A->cols - 1]; A->ix[i] < A->cols - 1; i++);
-    // compute diagonal; assumes non-zero ; A->ix[A->ptr[A->cols-1]] == A->cols-1
-    if (!unit)
-        x[A->cols - 1] /= Ae[i];
-
-    for (j = A->cols - 2; j >= 0; j--) {
+    for (j = A->cols - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j; k++);
-        // A->ix[k] == first row index equals column index
-        for (i = k + 1; i < A->ptr[j + 1]; i++) {
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
+        // diagonal element is zero or implicit if it is not stored
+        int stored = k < A->ptr[j + 1] && A->ix[k] == j;
+        for (i = stored ? k + 1 : k; i < A->ptr[j + 1]; i++) {
             x[j] -= Ae[i] * x[A->ix[i]];
         }
-        // compute diagonal; assumes non-zero ; A->ix[k] == j
         if (!unit)
-            x[j] /= Ae[k];
+            x[j] /= stored ? Ae[k] : ZERO;
     }
     return 0;
 }
@@ -170,10 +174,14 @@ int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     for (j = A->rows - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (p = A->ptr[j + 1] - 1; A->ix[p] > j; p--);
+        for (p = A->ptr[j + 1] - 1; p >= A->ptr[j] && A->ix[p] > j; p--);
+        // diagonal element is zero or implicit if it is not stored
+        int stored = p >= A->ptr[j] && A->ix[p] == j;
         if (!unit)
-            x[j] /= Ae[p];
-        for (p--; p >= A->ptr[j]; p--) {
+            x[j] /= stored ? Ae[p] : ZERO;
+        if (stored)
+            p--;
+        for (; p >= A->ptr[j]; p--) {
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
-- 
2.43.0


From 545c616c93974e3c351e4267679b224f5431dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 189/245] fix: armassp_mvsolve_trm: squareness of A was not
 checked, error code was not set

---
 src/sparse/trsv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 9ad5176..a2993ed 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -216,12 +216,13 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
         cf = armas_conf_default();
 
     if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols;
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
-- 
2.43.0


From 086f04715c0c0701cef945913d5e6e9c8a984bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 190/245] fix: armassp_mvsolve_trm: row vector operand was
 accessed as column

---
 src/sparse/trsv.c | 85 ++++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index a2993ed..87acce0 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -25,7 +25,8 @@
 
 // solve A*x = alpha*b; A upper triangular
 static
-int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_un(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     DTYPE *Ae = A->elems.v;
     int i, j, k;
@@ -35,31 +36,32 @@ int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         // diagonal element is zero or implicit if it is not stored
         int stored = k >= A->ptr[j] && A->ix[k] == j;
         if (!unit)
-            x[j] /= stored ? Ae[k] : ZERO;
+            x[j * incx] /= stored ? Ae[k] : ZERO;
         if (stored)
             k--;
         for (i = A->ptr[j]; i <= k; i++) {
-            x[A->ix[i]] -= Ae[i] * x[j];
+            x[A->ix[i] * incx] -= Ae[i] * x[j * incx];
         }
     }
     return 0;
 }
 
 static
-int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_un(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     DTYPE xk, *Ae = A->elems.v;
     int i, j;
     for (j = A->rows - 1; j >= 0; j--) {
         xk = 0;
         for (i = A->ptr[j + 1] - 1; i >= A->ptr[j] && A->ix[i] > j; i--) {
-            xk += Ae[i] * x[A->ix[i]];
+            xk += Ae[i] * x[A->ix[i] * incx];
         }
         // here i is position of the diagonal if it is stored
         if (unit) {
-            x[j] -= xk;
+            x[j * incx] -= xk;
         } else {
-            x[j] = (x[j] - xk) / (i >= A->ptr[j] && A->ix[i] == j ? Ae[i] : ZERO);
+            x[j * incx] = (x[j * incx] - xk) / (i >= A->ptr[j] && A->ix[i] == j ? Ae[i] : ZERO);
         }
     }
     return 0;
@@ -67,27 +69,29 @@ int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // solve A^T*x = alpha*b; A upper triangular
 static
-int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_ut(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     DTYPE xk, *Ae = A->elems.v;
     int i, j;
     for (j = 0; j < A->cols; j++) {
         xk = 0;
         for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++) {
-            xk += Ae[i] * x[A->ix[i]];
+            xk += Ae[i] * x[A->ix[i] * incx];
         }
         // here i is position of the diagonal if it is stored
         if (unit) {
-            x[j] -= xk;
+            x[j * incx] -= xk;
         } else {
-            x[j] = (x[j] - xk) / (i < A->ptr[j + 1] && A->ix[i] == j ? Ae[i] : ZERO);
+            x[j * incx] = (x[j * incx] - xk) / (i < A->ptr[j + 1] && A->ix[i] == j ? Ae[i] : ZERO);
         }
     }
     return 0;
 }
 
 static
-int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_ut(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     DTYPE *Ae = A->elems.v;
     int j, p;
@@ -97,11 +101,11 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         // diagonal element is zero or implicit if it is not stored
         int stored = p < A->ptr[j + 1] && A->ix[p] == j;
         if (!unit)
-            x[j] /= stored ? Ae[p] : ZERO;
+            x[j * incx] /= stored ? Ae[p] : ZERO;
         if (stored)
             p++;
         for (; p < A->ptr[j + 1]; p++) {
-            x[A->ix[p]] -= Ae[p] * x[j];
+            x[A->ix[p] * incx] -= Ae[p] * x[j * incx];
         }
     }
     return 0;
@@ -109,7 +113,8 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // solve A*x = alpha*b; A lower triangular
 static
-int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_ln(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     int i, j;
     for (j = 0; j < A->cols; j++) {
@@ -118,18 +123,19 @@ int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         // diagonal element is zero or implicit if it is not stored
         int stored = i < A->ptr[j + 1] && A->ix[i] == j;
         if (!unit)
-            x[j] /= stored ? A->elems.v[i] : ZERO;
+            x[j * incx] /= stored ? A->elems.v[i] : ZERO;
         if (stored)
             i++;
         for (; i < A->ptr[j + 1]; i++) {
-            x[A->ix[i]] -= A->elems.v[i] * x[j];
+            x[A->ix[i] * incx] -= A->elems.v[i] * x[j * incx];
         }
     }
     return 0;
 }
 
 static
-int csr_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_ln(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     DTYPE *Ae = A->elems.v;
     int j, p;
@@ -137,18 +143,19 @@ int csr_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (j = 0; j < A->rows; j++) {
 
         for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
-            x[j] -= Ae[p] * x[A->ix[p]];
+            x[j * incx] -= Ae[p] * x[A->ix[p] * incx];
         }
         // diagonal element is zero or implicit if it is not stored
         if (!unit)
-            x[j] /= p < A->ptr[j + 1] && A->ix[p] == j ? Ae[p] : ZERO;
+            x[j * incx] /= p < A->ptr[j + 1] && A->ix[p] == j ? Ae[p] : ZERO;
     }
     return 0;
 }
 
 // solve A^T*x = alpha*b; A lower triangular
 static
-int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_lt(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     DTYPE *Ae = A->elems.v;
     int i, j, k;
@@ -159,16 +166,17 @@ int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         // diagonal element is zero or implicit if it is not stored
         int stored = k < A->ptr[j + 1] && A->ix[k] == j;
         for (i = stored ? k + 1 : k; i < A->ptr[j + 1]; i++) {
-            x[j] -= Ae[i] * x[A->ix[i]];
+            x[j * incx] -= Ae[i] * x[A->ix[i] * incx];
         }
         if (!unit)
-            x[j] /= stored ? Ae[k] : ZERO;
+            x[j * incx] /= stored ? Ae[k] : ZERO;
     }
     return 0;
 }
 
 static
-int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_lt(DTYPE * x, int incx, DTYPE alpha, const armas_sparse_t * A,
+                   int unit)
 {
     int j, p;
     DTYPE *Ae = A->elems.v;
@@ -178,11 +186,11 @@ int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         // diagonal element is zero or implicit if it is not stored
         int stored = p >= A->ptr[j] && A->ix[p] == j;
         if (!unit)
-            x[j] /= stored ? Ae[p] : ZERO;
+            x[j * incx] /= stored ? Ae[p] : ZERO;
         if (stored)
             p--;
         for (; p >= A->ptr[j]; p--) {
-            x[A->ix[p]] -= Ae[p] * x[j];
+            x[A->ix[p] * incx] -= Ae[p] * x[j * incx];
         }
     }
     return 0;
@@ -228,35 +236,42 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
 
     int unit = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
 
+    if (A->rows == 0)
+        return 0;
+    if (!armas_isvector(x)) {
+        cf->error = ARMAS_ENEED_VECTOR;
+        return -ARMAS_ENEED_VECTOR;
+    }
     DTYPE *y = armas_data(x);
+    // elements of row vectors are not adjacent
+    int incx = x->cols == 1 ? 1 : x->step;
 
-    // TODO: we assume column vector here; how about a row vector??
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_ut(y, alpha, A, unit);
+            csr_mvsolve_ut(y, incx, alpha, A, unit);
         else
-            csc_mvsolve_ut(y, alpha, A, unit);
+            csc_mvsolve_ut(y, incx, alpha, A, unit);
         break;
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_un(y, alpha, A, unit);
+            csr_mvsolve_un(y, incx, alpha, A, unit);
         else
-            csc_mvsolve_un(y, alpha, A, unit);
+            csc_mvsolve_un(y, incx, alpha, A, unit);
         break;
     case ARMAS_LOWER | ARMAS_TRANS:
     case ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_lt(y, alpha, A, unit);
+            csr_mvsolve_lt(y, incx, alpha, A, unit);
         else
-            csc_mvsolve_lt(y, alpha, A, unit);
+            csc_mvsolve_lt(y, incx, alpha, A, unit);
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_ln(y, alpha, A, unit);
+            csr_mvsolve_ln(y, incx, alpha, A, unit);
         else
-            csc_mvsolve_ln(y, alpha, A, unit);
+            csc_mvsolve_ln(y, incx, alpha, A, unit);
         break;
     }
     return 0;
-- 
2.43.0


From 147488491a93bc4295183526363b695c87e3b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 191/245] fix: armassp_mvsolve_trm: coefficient alpha was
 ignored

---
 src/sparse/trsv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 87acce0..c07e52f 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -246,6 +246,10 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
     // elements of row vectors are not adjacent
     int incx = x->cols == 1 ? 1 : x->step;
 
+    if (alpha != ONE) {
+        for (int i = 0; i < A->rows; i++)
+            y[i * incx] *= alpha;
+    }
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-- 
2.43.0


From 15c6a52e566bac2acb3f8d05f9b16824bb154967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 192/245] fix: armassp_nz: element after the last one of the
 column was read

---
 src/include/sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index f6dfeb6..a9fa841 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -255,7 +255,7 @@ int *armassp_iptr(const armas_sparse_t *A, int j)
 __ARMAS_INLINE
 int armassp_nz(const armas_sparse_t *A, int j, int ix)
 {
-    for (int p = A->ptr[j]; A->ix[p] <= ix && p < A->ptr[j+1]; p++) {
+    for (int p = A->ptr[j]; p < A->ptr[j+1] && A->ix[p] <= ix; p++) {
         if (A->ix[p] == ix)
             return p;
     }
-- 
2.43.0


From d84436ec48801241e1b20e3970584f3085e72f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 193/245] fix: armassp_addto, armassp_multto: program was
 aborted when result filled the target matrix

---
 src/include/sparse.h |  4 ++--
 src/sparse/accum.c   | 12 +++++++-----
 src/sparse/add.c     | 45 ++++++++++++++++++++++++++++----------------
 src/sparse/mult.c    | 26 +++++++++++++++++--------
 4 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index a9fa841..d5012f2 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -129,8 +129,8 @@ extern void armas_accum_scatter(armas_accum_t *acc, const armas_spvec_t *x,
                                   DTYPE beta, int mark);
 extern void armas_accum_dot(armas_accum_t *acc, int k, const armas_spvec_t *x,
                               const armas_spvec_t *y, int mark);
-extern void armas_accum_gather(armas_sparse_t *C, DTYPE alpha,
-                                 armas_accum_t *acc, int ik, int maxnz);
+extern int armas_accum_gather(armas_sparse_t *C, DTYPE alpha,
+                                armas_accum_t *acc, int ik, int maxnz);
 extern void armas_accum_clear(armas_accum_t *acc);
 
 
diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index c196285..0c4ad78 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -19,7 +19,6 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 
@@ -151,21 +150,24 @@ void armas_accum_dot(armas_accum_t * acc,
 
 /**
  * @brief Update matrix from accumulator.
+ * @retval  0  Success
+ * @retval <0  Not enough space in C, no elements added.
  * @ingroup sparse
  */
-void armas_accum_gather(armas_sparse_t * C,
-                          DTYPE alpha, armas_accum_t * acc, int ik, int maxnz)
+int armas_accum_gather(armas_sparse_t * C,
+                         DTYPE alpha, armas_accum_t * acc, int ik, int maxnz)
 {
     int k, head;
     C->ptr[ik] = C->nnz;
+    if (acc->tail > maxnz - C->nnz)
+        return -ARMAS_ESIZE;
     for (head = 0; head < acc->tail; head++) {
         k = acc->queue[head];
         C->ix[C->nnz] = k;
         C->elems.v[C->nnz] = alpha * acc->elems[k];
         C->nnz++;
-        // need realloc??; core dump now if yes
-        assert(C->nnz < C->size);
     }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..ef86a83 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -27,7 +27,7 @@
 #include "splocal.h"
 
 static
-void add_csr_nn(armas_sparse_t * C,
+int add_csr_nn(armas_sparse_t * C,
                 DTYPE alpha, const armas_sparse_t * A,
                 DTYPE beta, const armas_sparse_t * B,
                 armas_accum_t * spa)
@@ -48,15 +48,17 @@ void add_csr_nn(armas_sparse_t * C,
             armas_accum_addpos(spa, armassp_at(B, p), val, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
     C->nptr = A->rows;
+    return 0;
 }
 
 static
-void add_csr_nt(armas_sparse_t * C,
+int add_csr_nt(armas_sparse_t * C,
                 DTYPE alpha, const armas_sparse_t * A,
                 DTYPE beta, const armas_sparse_t * B,
                 armas_accum_t * spa)
@@ -80,15 +82,17 @@ void add_csr_nt(armas_sparse_t * C,
             armas_accum_addpos(spa, j, val, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
     C->nptr = A->rows;
+    return 0;
 }
 
 static
-void add_csr_tn(armas_sparse_t * C,
+int add_csr_tn(armas_sparse_t * C,
                 DTYPE alpha, const armas_sparse_t * A,
                 DTYPE beta, const armas_sparse_t * B,
                 armas_accum_t * spa)
@@ -111,16 +115,18 @@ void add_csr_tn(armas_sparse_t * C,
             armas_accum_addpos(spa, armassp_at(B, p), val, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
     C->nptr = A->rows;
+    return 0;
 }
 
 
 static
-void add_csc_nn(armas_sparse_t * C,
+int add_csc_nn(armas_sparse_t * C,
                 DTYPE alpha, const armas_sparse_t * A,
                 DTYPE beta, const armas_sparse_t * B,
                 armas_accum_t * spa)
@@ -141,15 +147,17 @@ void add_csc_nn(armas_sparse_t * C,
             armas_accum_addpos(spa, armassp_at(B, p), val, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->cols] = C->nnz;
     C->nptr = A->cols;
+    return 0;
 }
 
 static
-void add_csc_nt(armas_sparse_t * C,
+int add_csc_nt(armas_sparse_t * C,
                 DTYPE alpha, const armas_sparse_t * A,
                 DTYPE beta, const armas_sparse_t * B,
                 armas_accum_t * spa)
@@ -173,11 +181,13 @@ void add_csc_nt(armas_sparse_t * C,
             armas_accum_addpos(spa, j, val, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->cols] = C->nnz;
     C->nptr = A->cols;
+    return 0;
 }
 
 /**
@@ -228,31 +238,34 @@ int armassp_addto_w(armas_sparse_t * C,
     armas_accum_make(&spa, armas_accum_dim(C),
                        armas_wptr(wb), armas_wbytes(wb));
 
+    int stat = 0;
     switch (bits & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSB:
         if (A->kind == ARMASSP_CSC) {
-            add_csc_nt(C, alpha, A, beta, B, &spa);
+            stat = add_csc_nt(C, alpha, A, beta, B, &spa);
         } else {
-            add_csr_nt(C, alpha, A, beta, B, &spa);
+            stat = add_csr_nt(C, alpha, A, beta, B, &spa);
         }
         break;
     case ARMAS_TRANSA:
         if (A->kind == ARMASSP_CSC) {
         } else {
-            add_csr_tn(C, alpha, A, beta, B, &spa);
+            stat = add_csr_tn(C, alpha, A, beta, B, &spa);
         }
         break;
     default:
         if (A->kind == ARMASSP_CSC) {
-            add_csc_nn(C, alpha, A, beta, B, &spa);
+            stat = add_csc_nn(C, alpha, A, beta, B, &spa);
         } else {
-            add_csr_nn(C, alpha, A, beta, B, &spa);
+            stat = add_csr_nn(C, alpha, A, beta, B, &spa);
         }
         break;
     }
     // release used wbspace
     armas_wsetpos(wb, pos);
-    return 0;
+    if (stat < 0)
+        cf->error = -stat;
+    return stat;
 }
 
 /**
diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..411c83a 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -50,7 +50,8 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -79,7 +80,8 @@ int mult_csr_nt(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -109,7 +111,8 @@ int mult_csr_tn(armas_sparse_t * C,
             armas_accum_scatter(spa, &b, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -143,7 +146,8 @@ int mult_csr_tt(armas_sparse_t * C,
             }
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -171,7 +175,8 @@ int mult_csc_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(B, p), i);
         }
         // gather data to C[:,i] column
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[B->cols] = C->nnz;
@@ -200,7 +205,8 @@ int mult_csc_tn(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[B->cols] = C->nnz;
@@ -230,7 +236,8 @@ int mult_csc_nt(armas_sparse_t * C,
             armas_accum_scatter(spa, &a, armassp_value(B, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[C->cols] = C->nnz;
@@ -264,7 +271,8 @@ int mult_csc_tt(armas_sparse_t * C,
             }
         }
         // gather data to C[:,i] col
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[C->cols] = C->nnz;
@@ -389,6 +397,8 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    if (stat < 0)
+        cf->error = -stat;
     return stat;
 }
 
-- 
2.43.0


From a1260e19ee41b9dcd3d718d1d180fe8e88c4e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 194/245] fix: armassp_addto: transposed A was multiplied with
 beta

---
 src/sparse/add.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index ef86a83..9a7085a 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -107,7 +107,7 @@ int add_csr_tn(armas_sparse_t * C,
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
                 continue;
-            val = beta * armassp_value(A, p);
+            val = alpha * armassp_value(A, p);
             armas_accum_addpos(spa, j, val, i);
         }
         for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-- 
2.43.0


From 781a69db78ce48f47a15403422bc3bf42abffbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 195/245] fix: armassp_addto: operand dimensions were not
 checked with transposes, target dimensions not at all

---
 src/sparse/add.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 9a7085a..4adef9a 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -103,7 +103,7 @@ int add_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < B->rows; i++) {
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
                 continue;
@@ -119,8 +119,8 @@ int add_csr_tn(armas_sparse_t * C,
             return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[B->rows] = C->nnz;
+    C->nptr = B->rows;
     return 0;
 }
 
@@ -216,10 +216,21 @@ int armassp_addto_w(armas_sparse_t * C,
     if (!A || !B)
         return 0;
 
-    if (A->kind != B->kind) {
+    if (!cf)
+        cf = armas_conf_default();
+
+    if (A->kind != B->kind || (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (A->rows != B->rows || A->cols != B->cols) {
+    // dimensions of the result
+    int m = (bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    int n = (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    int ok = (bits & ARMAS_TRANSB) != 0
+        ? B->cols == m && B->rows == n
+        : B->rows == m && B->cols == n;
+    if (!ok || (C && (C->rows != m || C->cols != n))) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
-- 
2.43.0


From 675691be84a73ce96bc24ab0de9faf1db1e003d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 196/245] fix: armassp_add: workspace query read the missing
 target matrix

---
 src/sparse/add.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 4adef9a..46b5dfc 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -234,11 +234,16 @@ int armassp_addto_w(armas_sparse_t * C,
         return -ARMAS_ESIZE;
     }
 
+    int dim = A->kind == ARMASSP_CSR ? n : m;
     if (wb && wb->bytes == 0) {
-        wb->bytes = armas_accum_need(C);
+        wb->bytes = armas_accum_bytes(dim);
         return 0;
     }
-    if (armas_wbytes(wb) < armas_accum_need(C)) {
+    if (!C || C->kind != A->kind) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+    if (armas_wbytes(wb) < armas_accum_bytes(dim)) {
         cf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -246,7 +251,7 @@ int armassp_addto_w(armas_sparse_t * C,
     // get current position in wb space
     size_t pos = armas_wpos(wb);
     // make sparse accumulator 
-    armas_accum_make(&spa, armas_accum_dim(C),
+    armas_accum_make(&spa, dim,
                        armas_wptr(wb), armas_wbytes(wb));
 
     int stat = 0;
@@ -294,25 +299,35 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     armas_sparse_t *C = (armas_sparse_t *) 0;
     armas_wbuf_t work = ARMAS_WBNULL;
 
+    if (!cf)
+        cf = armas_conf_default();
+
     if (!A || !B)
         return C;
 
     if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
         return C;
 
-    if (!armas_walloc(&work, work.bytes)) {
+    if (work.bytes > 0 && !armas_walloc(&work, work.bytes)) {
         cf->error = ARMAS_EWORK;
         return C;
     }
     // allocate target matrix; size estimate 
     int cnz = A->nnz + B->nnz;
-    C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    if ((bits & ARMAS_TRANSA) != 0)
+        C = armassp_new(A->cols, A->rows, cnz, A->kind);
+    else
+        C = armassp_new(A->rows, A->cols, cnz, A->kind);
     if (!C) {
+        cf->error = ARMAS_EMEMORY;
         armas_wrelease(&work);
         return C;
     }
 
-    armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
+    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+    }
     armas_wrelease(&work);
     return C;
 }
-- 
2.43.0


From 9bde77d7167f113ab845f3d538386bfde2d86126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 197/245] fix: armassp_addto: sum with transposed CSC matrix,
 and with both transposed, was not computed

---
 src/sparse/add.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index 46b5dfc..df23258 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -190,6 +190,74 @@ int add_csc_nt(armas_sparse_t * C,
     return 0;
 }
 
+static
+int add_csc_tn(armas_sparse_t * C,
+               DTYPE alpha, const armas_sparse_t * A,
+               DTYPE beta, const armas_sparse_t * B,
+               armas_accum_t * spa)
+{
+    int i, j, p;
+    DTYPE val;
+
+    C->nnz = 0;
+    armas_accum_clear(spa);
+
+    for (i = 0; i < B->cols; i++) {
+        for (j = 0; j < A->cols; j++) {
+            if ((p = armassp_nz(A, j, i)) < 0)
+                continue;
+            val = alpha * armassp_value(A, p);
+            armas_accum_addpos(spa, j, val, i);
+        }
+        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
+            val = beta * armassp_value(B, p);
+            armas_accum_addpos(spa, armassp_at(B, p), val, i);
+        }
+        // gather data to C[:,i] column
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
+        spa->tail = 0;
+    }
+    C->ptr[B->cols] = C->nnz;
+    C->nptr = B->cols;
+    return 0;
+}
+
+// CSR and CSC; A and B are of same dimensions
+static
+int add_tt(armas_sparse_t * C,
+           DTYPE alpha, const armas_sparse_t * A,
+           DTYPE beta, const armas_sparse_t * B,
+           armas_accum_t * spa)
+{
+    int i, j, p;
+    DTYPE val;
+    int n = C->kind == ARMASSP_CSR ? C->rows : C->cols;
+
+    C->nnz = 0;
+    armas_accum_clear(spa);
+
+    for (i = 0; i < n; i++) {
+        for (j = 0; j < A->nptr; j++) {
+            if ((p = armassp_nz(A, j, i)) >= 0) {
+                val = alpha * armassp_value(A, p);
+                armas_accum_addpos(spa, j, val, i);
+            }
+            if ((p = armassp_nz(B, j, i)) >= 0) {
+                val = beta * armassp_value(B, p);
+                armas_accum_addpos(spa, j, val, i);
+            }
+        }
+        // gather data to C[i,:] row (CSR) or C[:,i] column (CSC)
+        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
+        spa->tail = 0;
+    }
+    C->ptr[n] = C->nnz;
+    C->nptr = n;
+    return 0;
+}
+
 /**
  * @brief Compute \f$ C = \alpha * A + \beta * B \f$
  *
@@ -256,6 +324,9 @@ int armassp_addto_w(armas_sparse_t * C,
 
     int stat = 0;
     switch (bits & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    case ARMAS_TRANSA | ARMAS_TRANSB:
+        stat = add_tt(C, alpha, A, beta, B, &spa);
+        break;
     case ARMAS_TRANSB:
         if (A->kind == ARMASSP_CSC) {
             stat = add_csc_nt(C, alpha, A, beta, B, &spa);
@@ -265,6 +336,7 @@ int armassp_addto_w(armas_sparse_t * C,
         break;
     case ARMAS_TRANSA:
         if (A->kind == ARMASSP_CSC) {
+            stat = add_csc_tn(C, alpha, A, beta, B, &spa);
         } else {
             stat = add_csr_tn(C, alpha, A, beta, B, &spa);
         }
-- 
2.43.0


From c72b301d7d5d329107c4f62011046661a9da4a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 198/245] fix: armassp_multto: alpha was ignored in CSR product

---
 src/sparse/mult.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 411c83a..3a0fbc4 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -50,7 +50,7 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        if (armas_accum_gather(C, 1.0, spa, i, C->size) < 0)
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
             return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-- 
2.43.0


From dfd1a7f9f510211a1a119a415b062346dc859515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 199/245] fix: armassp_multto: rows or columns of transposed
 products were not computed or were read outside of matrices

---
 src/sparse/mult.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 3a0fbc4..744cc56 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -102,7 +102,7 @@ int mult_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < A->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
@@ -115,8 +115,8 @@ int mult_csr_tn(armas_sparse_t * C,
             return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[A->cols] = C->nnz;
+    C->nptr = A->cols;
     return 0;
 }
 
@@ -150,8 +150,8 @@ int mult_csr_tt(armas_sparse_t * C,
             return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -227,7 +227,7 @@ int mult_csc_nt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < B->cols; i++) {
+    for (i = 0; i < B->rows; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < B->cols; j++) {
             if ((p = armassp_nz(B, j, i)) < 0)
@@ -258,8 +258,8 @@ int mult_csc_tt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < C->rows; i++) {
-        for (j = 0; j < C->cols; j++) {
+    for (i = 0; i < C->cols; i++) {
+        for (j = 0; j < C->rows; j++) {
             // get column j from A;
             for (p1 = armassp_index(A, j); p1 < armassp_index(A, j + 1); p1++) {
                 k = armassp_at(A, p1);
-- 
2.43.0


From dacd73f204b8082f1e0b15a95d176dc82dea736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 200/245] fix: armassp_multto: storage types of operands were
 not checked

---
 src/sparse/mult.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 744cc56..68b0164 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -319,6 +319,15 @@ int armassp_multto_w(armas_sparse_t * C,
 {
     int m, n, ok;
 
+    if (!cf)
+        cf = armas_conf_default();
+
+    if (!A || !B || !C || A->kind != B->kind || A->kind != C->kind
+        || (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)) {
+        cf->error = ARMAS_EINVAL;
+        return -1;
+    }
+
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         m = A->cols;
@@ -341,13 +350,13 @@ int armassp_multto_w(armas_sparse_t * C,
         ok = A->cols == B->rows && C->rows == m && C->cols == n;
         break;
     }
-    if (!ok || !w) {
+    if (!ok) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
 
     // get estimate for needed work space
-    if (w->bytes == 0) {
+    if (w && w->bytes == 0) {
         w->bytes = armas_accum_need(C);
         return 0;
     }
-- 
2.43.0


From afb58fa71402420bc2e6baa98e39166308d2689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 201/245] fix: armassp_multto: target with enough space was
 refused, division by zero with empty operands

---
 src/sparse/mult.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 68b0164..20b2da9 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -360,15 +360,6 @@ int armassp_multto_w(armas_sparse_t * C,
         w->bytes = armas_accum_need(C);
         return 0;
     }
-    // 
-    // size estimate;
-    int cnz = A->nnz * B->nnz / n;
-    size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
-    if (armassp_nbytes(C) < cbytes) {
-        cf->error = ARMAS_ESIZE;
-        return -2;
-    }
-
     size_t sz = armas_accum_need(C);
     if (armas_wbytes(w) < sz) {
         cf->error = ARMAS_EWORK;
-- 
2.43.0


From f69de5b93000cc09d63df065b0269b08b54131eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 202/245] fix: armassp_multto: accumulator was left
 uninitialized if workspace was of required size, workspace was not released

---
 src/sparse/mult.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 20b2da9..27d6bde 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -367,8 +367,8 @@ int armassp_multto_w(armas_sparse_t * C,
     }
 
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    size_t pos = armas_wpos(w);
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz), sz);
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -397,6 +397,7 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    armas_wsetpos(w, pos);
     if (stat < 0)
         cf->error = -stat;
     return stat;
-- 
2.43.0


From 329342b8fa8430986462ea8c482d3eb93fc1f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 203/245] fix: armassp_mult: product was not computed, an empty
 matrix was returned

---
 src/sparse/mult.c | 53 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 27d6bde..74e12c5 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -21,7 +21,7 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
+#include <limits.h>
 #include "matrix.h"
 #include "sparse.h"
 // local mappings to type spesific names
@@ -284,6 +284,8 @@ size_t armassp_mult_nnz(const armas_sparse_t * A,
                           const armas_sparse_t * B, int flags)
 {
     int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
+    if (n == 0)
+        return 0;
     return ((size_t) A->nnz) * ((size_t) B->nnz) / n;
 }
 
@@ -427,19 +429,58 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
                                  int flags, armas_conf_t * cf)
 {
     armas_sparse_t *C;
-    //armas_accum_t spa;
+    armas_wbuf_t work = ARMAS_WBNULL;
+    int stat;
+
+    if (!cf)
+        cf = armas_conf_default();
 
     if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
+        cf->error = ARMAS_EINVAL;
         return (armas_sparse_t *) 0;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz * B->nnz / A->cols;
-    C = armassp_new(A->rows, B->cols, cnz, A->kind);
+    int m = (flags & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    int n = (flags & ARMAS_TRANSB) != 0 ? B->rows : B->cols;
+    // allocate target matrix; size estimate, never more than all elements
+    size_t maxnz = (size_t) m * (size_t) n;
+    size_t cnz = armassp_mult_nnz(A, B, flags) + A->nnz + B->nnz + 1;
+    if (maxnz > INT_MAX)
+        maxnz = INT_MAX;
+    if (cnz > maxnz)
+        cnz = maxnz;
+
+    C = armassp_new(m, n, (int) cnz, A->kind);
     if (!C) {
         cf->error = ARMAS_EMEMORY;
         return (armas_sparse_t *) 0;
     }
-
+    // check operands and get workspace
+    if (armassp_multto_w(C, alpha, A, B, flags, &work, cf) < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    if (work.bytes > 0 && !armas_walloc(&work, work.bytes)) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    stat = armassp_multto_w(C, alpha, A, B, flags, &work, cf);
+    while (stat == -ARMAS_ESIZE && cnz < maxnz) {
+        // estimate was too small
+        cnz = cnz > maxnz / 2 ? maxnz : 2 * cnz;
+        armassp_free(C);
+        C = armassp_new(m, n, (int) cnz, A->kind);
+        if (!C) {
+            cf->error = ARMAS_EMEMORY;
+            break;
+        }
+        stat = armassp_multto_w(C, alpha, A, B, flags, &work, cf);
+    }
+    if (C && stat < 0) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+    }
+    armas_wrelease(&work);
     return C;
 }
 #else
-- 
2.43.0


From f846861c970dfcb6461ecca07821111d72fe549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 204/245] fix: sparse solvers: right hand side given as row
 vector was not copied

---
 src/sparse/cgne.c   | 2 +-
 src/sparse/cgnr.c   | 2 +-
 src/sparse/cgrad.c  | 2 +-
 src/sparse/icholz.c | 4 ++--
 src/sparse/iluz.c   | 2 +-
 src/sparse/pcgrad.c | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index a2050a2..1754f4f 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -167,7 +167,7 @@ int armassp_cgne_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(wb, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
     if (rstop == ZERO)
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 93ca367..0db4b5d 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -150,7 +150,7 @@ int armassp_cgnr_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
     // no absolute stopping criteria; make it epsilon^2*(r0, r0) 
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index b32e1bf..26ad7c3 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -150,7 +150,7 @@ int armassp_cgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
 
     if (rstop == ZERO)
diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index bed4c45..c36f1b0 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -257,7 +257,7 @@ int precond_icholz(armas_dense_t * z,
                    const armas_dense_t * x, armas_conf_t * cf)
 {
     if (z != x) {
-        armas_mcopy(z, x, 0, cf);
+        armas_copy(z, x, cf);
     }
     if ((P->flags & ARMAS_UPPER) != 0) {
         armassp_mvsolve_trm(z, 1.0, P->M, P->flags | ARMAS_TRANS, cf);
@@ -277,7 +277,7 @@ int precond_icholz_partial(armas_dense_t * z,
                            int flags, armas_conf_t * cf)
 {
     if (z != x) {
-        armas_mcopy(z, x, 0, cf);
+        armas_copy(z, x, cf);
     }
     armassp_mvsolve_trm(z, 1.0, P->M, P->flags | flags, cf);
     return 0;
diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 3cee9fb..c26db59 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -153,7 +153,7 @@ int precond_ilu(armas_dense_t * z,
                 const armas_dense_t * x, armas_conf_t * cf)
 {
     if (z != x)
-        armas_mcopy(z, x, 0, cf);
+        armas_copy(z, x, cf);
     // x = M^-1*x = L^-1*(U^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 9e25337..33a9f62 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -156,7 +156,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
 
     rstop = cf->stop > ZERO ? cf->stop : ZERO;
-- 
2.43.0


From 578d7cfdc53a201ab57a1d70da42c6c246ff2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 205/245] fix: sparse conjugate gradients: solution was NaN if
 initial value was the solution already

---
 src/sparse/cgne.c   | 12 ++++++------
 src/sparse/cgnr.c   | 12 ++++++------
 src/sparse/cgrad.c  | 12 ++++++------
 src/sparse/pcgrad.c | 10 +++++-----
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index 1754f4f..b44459b 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -185,8 +185,10 @@ int armassp_cgne_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r1 = armas_dot(&r, &r, cf);
+    // initial value may already be the solution
+    int converged = dot_r1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
         dot_r = armas_dot(&r, &r, cf);
@@ -199,9 +201,7 @@ int armassp_cgne_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
+        converged = dot_r1 <= rstop;
         beta = dot_r1 / dot_r;
         // p = beta*p + A^T*r;
         armassp_mvmult(beta, &p, ONE, A, &r, ARMAS_TRANS, cf);
@@ -212,7 +212,7 @@ int armassp_cgne_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(wb, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    return converged ? 0 : -ARMAS_ECONVERGE;
 }
 
 /**
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 0db4b5d..a094637 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -174,8 +174,10 @@ int armassp_cgnr_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // --------------------------------------------------------------------
-    dot_z1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_z1 = armas_dot(&z, &z, cf);
+    // initial value may already be the solution
+    int converged = dot_z1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
         dot_z = armas_dot(&z, &z, cf);
@@ -190,9 +192,7 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &z, ONE, A, &r, ARMAS_TRANS, cf);
 
         dot_z1 = armas_dot(&z, &z, cf);
-        if (dot_z1 < rstop) {
-            break;
-        }
+        converged = dot_z1 <= rstop;
         beta = dot_z1 / dot_z;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
@@ -202,7 +202,7 @@ int armassp_cgnr_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_z1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    return converged ? 0 : -ARMAS_ECONVERGE;
 }
 
 /**
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index 26ad7c3..c798634 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -167,8 +167,10 @@ int armassp_cgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r1 = armas_dot(&r, &r, cf);
+    // initial value may already be the solution
+    int converged = dot_r1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
         dot_r = armas_dot(&r, &r, cf);
@@ -181,9 +183,7 @@ int armassp_cgrad_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
+        converged = dot_r1 <= rstop;
         beta = dot_r1 / dot_r;
         // p = beta*p + r;
         armas_axpby(beta, &p, ONE, &r, cf);
@@ -194,7 +194,7 @@ int armassp_cgrad_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    return converged ? 0 : -ARMAS_ECONVERGE;
 }
 
 /**
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 33a9f62..4446928 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -182,8 +182,10 @@ int armassp_pcgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_rz1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_rz1 = armas_dot(&r, &z, cf);
+    // initial value may already be the solution
+    int converged = dot_rz1 <= rstop;
+    for (niter = 0; niter < maxiter && !converged; niter++) {
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
         dot_p = armas_dot(&Ap, &p, cf);
@@ -198,9 +200,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
         M->precond(&z, M, &r, cf);
 
         dot_rz1 = armas_dot(&r, &z, cf);
-        if (dot_rz1 < rstop) {
-            break;
-        }
+        converged = dot_rz1 <= rstop;
         beta = dot_rz1 / dot_rz;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
-- 
2.43.0


From 676f23e967a5abf90fdeb02d5869499237b95a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 206/245] fix: armassp_pcgrad: success was returned if
 iteration did not converge

---
 src/sparse/cgne.c   | 6 +++++-
 src/sparse/cgnr.c   | 6 +++++-
 src/sparse/cgrad.c  | 6 +++++-
 src/sparse/pcgrad.c | 4 ++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index b44459b..fad0a5a 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -212,7 +212,11 @@ int armassp_cgne_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(wb, pos);
-    return converged ? 0 : -ARMAS_ECONVERGE;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index a094637..d11aecd 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -202,7 +202,11 @@ int armassp_cgnr_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_z1);
 
     armas_wsetpos(W, pos);
-    return converged ? 0 : -ARMAS_ECONVERGE;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index c798634..e1e4b21 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -194,7 +194,11 @@ int armassp_cgrad_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(W, pos);
-    return converged ? 0 : -ARMAS_ECONVERGE;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 4446928..5950597 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -211,6 +211,10 @@ int armassp_pcgrad_w(armas_dense_t * x,
     cf->residual = SQRT(dot_rz1);
 
     armas_wsetpos(W, wpos);
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From fc0b8469ee5eef395747cbc6dac030d065d55c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 207/245] fix: armassp_pcgrad: missing preconditioner was
 accessed

---
 src/sparse/pcgrad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 5950597..0a33bca 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -143,12 +143,16 @@ int armassp_pcgrad_w(armas_dense_t * x,
         cf->error = ARMAS_EINVAL;
         return -1;
     }
+    if (A->rows == 0 || A->cols == 0)
+        return 0;
+    if (!M) {
+        cf->error = ARMAS_EINVAL;
+        return -1;
+    }
     if (armas_wbytes(W) < PCGRAD_WSIZE(m)) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
-    if (A->rows == 0 || A->cols == 0)
-        return 0;
 
     size_t wpos = armas_wpos(W);
 
-- 
2.43.0


From 96ca65ed9e49da0460697b3985a4d505a3126691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 208/245] fix: ILU preconditioner: factors were applied in
 reverse order

---
 src/sparse/iluz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index c26db59..d96d854 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -154,9 +154,9 @@ int precond_ilu(armas_dense_t * z,
 {
     if (z != x)
         armas_copy(z, x, cf);
-    // x = M^-1*x = L^-1*(U^-1*x)
-    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
+    // x = M^-1*x = (LU)^-1*x = U^-1*(L^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
+    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     return 0;
 }
 
-- 
2.43.0


From 4902b5b61f160a3bc4f43db82e7e083593b07a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 209/245] fix: armassp_init_iluz: partial function of
 preconditioner was left uninitialized

---
 src/sparse/iluz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index d96d854..0d985ed 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -180,6 +180,7 @@ int armassp_init_iluz(armassp_precond_t * P, armas_sparse_t * A)
         P->M = A;
         P->flags = 0;
         P->precond = precond_ilu;
+        P->partial = 0;
     }
     return stat;
 }
-- 
2.43.0


From 985a640a4ee1c9efbe73235bebfadee2ee937d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 210/245] fix: armassp_iluz: program was aborted or index
 arrays overrun if diagonal element was not stored

---
 src/sparse/iluz.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 0d985ed..a8abd44 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -21,7 +21,6 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 
@@ -59,9 +58,9 @@ int csr_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->rows; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(L, p0) == i);
+        if ((p0 = armassp_nz(L, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
         a11 = armassp_value(L, p0);
 
         // l21 = a21/a11; A22 = A22 - l21*a12^T
@@ -101,9 +100,9 @@ int csc_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->cols; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a21
-        assert(armassp_at(L, p0) == i);
+        if ((p0 = armassp_nz(L, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a21
         a11 = armassp_value(L, p0);
 
         // l21 = a21/a11
@@ -140,6 +139,8 @@ int armassp_iluz(armas_sparse_t * L)
 {
     if (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC)
         return -1;
+    if (L->rows != L->cols)
+        return -ARMAS_ESIZE;
 
     if (L->kind == ARMASSP_CSR) {
         return csr_iluz(L);
-- 
2.43.0


From 536efac570ee19662deedc2c1bb01b4bff240e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 211/245] fix: armassp_icholz: program was aborted or index
 arrays overrun if diagonal element was not stored

---
 src/sparse/icholz.c | 50 ++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index c36f1b0..2ba7f29 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -22,7 +22,6 @@
 // -----------------------------------------------------------------------------
 
 #include <math.h>
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 #include "splocal.h"
@@ -61,9 +60,9 @@ int csr_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
         a11 = sqrt(armassp_value(A, p0));
         Le[p0] = a11;
@@ -76,7 +75,7 @@ int csr_illtz_lower(armas_sparse_t * A)
             Le[p1] /= a11;
             // A22[k,:] = A22[k,:] - l21[k]*l21^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -101,9 +100,9 @@ int csr_illtz_upper(armas_sparse_t * A)
 
     // compute u11 = sqrt(a11); u12 = a12/u11; A22 = A22 - u12*u12^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
         a11 = sqrt(armassp_value(A, p0));
         Ue[p0] = a11;
@@ -118,7 +117,7 @@ int csr_illtz_upper(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and above diagonal
             for (p1 = p0 + 1;
@@ -150,9 +149,9 @@ int csc_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->cols; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
         a11 = sqrt(armassp_value(A, p0));
         Le[p0] = a11;
@@ -166,7 +165,7 @@ int csc_illtz_lower(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and below diagonal
             for (p1 = p0 + 1;
@@ -199,9 +198,9 @@ int csc_illtz_upper(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        // p0 points to diagonal entry; p0+1 start of a12^T
 
         a11 = sqrt(armassp_value(A, p0));
         Ue[p0] = a11;
@@ -214,7 +213,7 @@ int csc_illtz_upper(armas_sparse_t * A)
             Ue[p1] /= a11;
             // A22[:,k] = A22[:,k] - u12[k]*u12^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -232,22 +231,23 @@ int csc_illtz_upper(armas_sparse_t * A)
  */
 int armassp_icholz(armas_sparse_t * A, int flags)
 {
+    if (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)
+        return -ARMAS_EINVAL;
+    if (A->rows != A->cols)
+        return -ARMAS_ESIZE;
+
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER)) {
 
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_upper(A);
-        else
-            csc_illtz_upper(A);
-        break;
+            return csr_illtz_upper(A);
+        return csc_illtz_upper(A);
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_lower(A);
-        else
-            csc_illtz_lower(A);
+            return csr_illtz_lower(A);
+        return csc_illtz_lower(A);
     }
-    return 0;
 }
 
 
-- 
2.43.0


From cce0954ac232cbd45adfa62a394af340a2615eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 212/245] fix: armassp_icholz: factor of NaNs was returned with
 success if pivot was not positive

---
 src/sparse/icholz.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index 2ba7f29..ad5bfbf 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -64,7 +64,9 @@ int csr_illtz_lower(armas_sparse_t * A)
             return -ARMAS_ESINGULAR;
         // p0 points to diagonal entry; p0+1 start of a12^T
 
-        a11 = sqrt(armassp_value(A, p0));
+        if (armassp_value(A, p0) <= ZERO)
+            return -ARMAS_ENEGATIVE;
+        a11 = SQRT(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11; A22 = A22 - l21*l21^T
         for (k = i + 1; k < A->rows; k++) {
@@ -104,7 +106,9 @@ int csr_illtz_upper(armas_sparse_t * A)
             return -ARMAS_ESINGULAR;
         // p0 points to diagonal entry; p0+1 start of a12^T
 
-        a11 = sqrt(armassp_value(A, p0));
+        if (armassp_value(A, p0) <= ZERO)
+            return -ARMAS_ENEGATIVE;
+        a11 = SQRT(armassp_value(A, p0));
         Ue[p0] = a11;
 
         // u12^T = u12^T/a11;
@@ -153,7 +157,9 @@ int csc_illtz_lower(armas_sparse_t * A)
             return -ARMAS_ESINGULAR;
         // p0 points to diagonal entry; p0+1 start of a12^T
 
-        a11 = sqrt(armassp_value(A, p0));
+        if (armassp_value(A, p0) <= ZERO)
+            return -ARMAS_ENEGATIVE;
+        a11 = SQRT(armassp_value(A, p0));
         Le[p0] = a11;
         // l21 = a21/a11;
         for (p = p0 + 1; p < armassp_index(A, i + 1); p++)
@@ -202,7 +208,9 @@ int csc_illtz_upper(armas_sparse_t * A)
             return -ARMAS_ESINGULAR;
         // p0 points to diagonal entry; p0+1 start of a12^T
 
-        a11 = sqrt(armassp_value(A, p0));
+        if (armassp_value(A, p0) <= ZERO)
+            return -ARMAS_ENEGATIVE;
+        a11 = SQRT(armassp_value(A, p0));
         Ue[p0] = a11;
         // u12^T = u12^T/a11; A22 = A22 - u12*u12^T
         for (k = i + 1; k < A->cols; k++) {
-- 
2.43.0


From a9bf7e7f7892ffeeeb2255bc250bdd801ac99f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 213/245] fix: armassp_pgmres: preconditioner was not applied
 to the Krylov vectors, solutions were wrong

---
 src/sparse/pgmres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 07aa9bf..e81df74 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -128,7 +128,7 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_set_unsafe(w, P00.rows - 1, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = AM^-1*v; p1 == z
-        M->precond(&p1, M, &p1, cnf);
+        M->precond(w, M, w, cnf);
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
         // z = P_j*...P_1*Av
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
-- 
2.43.0


From 4652a29fc56b872604d7164950dc987db8a6c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 214/245] fix: armassp_gmres, armassp_pgmres: restart length
 was not limited to the dimension and the workspace

---
 src/sparse/gmres.c  | 19 ++++++++++++++++---
 src/sparse/pgmres.c | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a310d1d..59a1f82 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -133,11 +133,19 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
                             cnf);
 
+        // no subdiagonal in last column of full Hessenberg matrix
+        int last = P00.rows == P->rows;
+        if (last)
+            armas_submatrix_unsafe(&p01, &p1, 0, 0, P->rows, 1);
+
         // apply previouse rotations to p01
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        if (last)
+            _beta = ZERO;
+        else
+            armas_house(&p11, &p21, &beta, 0, cnf);
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
@@ -150,7 +158,7 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_set_unsafe(C, nrot, 0, c);
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
-        converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
+        converged = last || ABS(armas_get_unsafe(y, nrot, 0)) < stop;
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
             &PTL, __nil,
@@ -401,7 +409,7 @@ int compute_m(int n, int w)
     if (w < n)
         return 0;
     int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    return m < 1 ? 0 : m;
 }
 
 
@@ -474,6 +482,11 @@ int armassp_gmres_w(armas_dense_t * x,
         cf->error = ARMAS_EWORK;
         return -1;
     }
+    // not more columns than requested and never more than dimension of the space
+    if (me > m)
+        me = m;
+    if (me > n)
+        me = n;
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
     DTYPE res = ZERO;
     int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, wb, cf);
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index e81df74..cc9b811 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -134,11 +134,19 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
                             cnf);
 
+        // no subdiagonal in last column of full Hessenberg matrix
+        int last = P00.rows == P->rows;
+        if (last)
+            armas_submatrix_unsafe(&p01, &p1, 0, 0, P->rows, 1);
+
         // apply previouse rotations to p01
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        if (last)
+            _beta = ZERO;
+        else
+            armas_house(&p11, &p21, &beta, 0, cnf);
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
@@ -151,7 +159,7 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_set_unsafe(C, nrot, 0, c);
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
-        converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
+        converged = last || ABS(armas_get_unsafe(y, nrot, 0)) < stop;
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
             &PTL, __nil,
@@ -206,7 +214,7 @@ int compute_m(int n, int w)
     if (w < n)
         return 0;
     int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    return m < 1 ? 0 : m;
 }
 
 
@@ -295,6 +303,11 @@ int armassp_pgmres_w(armas_dense_t * x,
         cf->error = ARMAS_EWORK;
         return -1;
     }
+    // not more columns than available space or the dimension
+    if (m > me)
+        m = me;
+    if (m > n)
+        m = n;
     maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From e28114a6f3c4ef67834aa8c48aec8bf5b4ac0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 215/245] fix: armassp_gmres, armassp_pgmres: absent and empty
 operands were accessed

---
 src/sparse/gmres.c  | 6 ++++++
 src/sparse/pgmres.c | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index 59a1f82..d07bcb1 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -464,6 +464,10 @@ int armassp_gmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A) {
+        cf->error = ARMAS_EINVAL;
+        return -1;
+    }
     int n = A->rows;
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
@@ -476,6 +480,8 @@ int armassp_gmres_w(armas_dense_t * x,
         cf->error = ARMAS_EINVAL;
         return -1;
     }
+    if (n == 0)
+        return 0;
     // estimate of m
     int me = compute_m(n, armas_wbytes(wb) / sizeof(DTYPE));
     if (me == 0) {
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index cc9b811..9f5fa94 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -282,13 +282,14 @@ int armassp_pgmres_w(armas_dense_t * x,
 
     if (!cf)
         cf = armas_conf_default();
-    if (!A) {
+    if (!A || !M) {
+        cf->error = ARMAS_EINVAL;
         return -1;
     }
 
     n = A->cols;
     m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
-    if (W->bytes == 0) {
+    if (W && W->bytes == 0) {
         // get working size
         W->bytes = GMRES_WSIZE(n, m);
         return 0;
@@ -297,6 +298,8 @@ int armassp_pgmres_w(armas_dense_t * x,
         cf->error = ARMAS_EINVAL;
         return -1;
     }
+    if (n == 0)
+        return 0;
     // estimate of m
     me = compute_m(n, armas_wbytes(W) / sizeof(DTYPE));
     if (me == 0) {
-- 
2.43.0


From 9e18d13aa359e5ed87ef360f8632320819b5c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 216/245] fix: armassp_gmres, armassp_pgmres: solution was NaN
 if initial value was the solution, residual and failure to converge were not
 reported

---
 src/sparse/gmres.c  | 21 ++++++++++++++++-----
 src/sparse/pgmres.c | 11 +++++++++--
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index d07bcb1..986ceeb 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -203,7 +203,8 @@ int gmres_hh_loop_fused(armas_dense_t * x,
                         const armas_dense_t * b,
                         int maxiter,
                         int m,
-                        DTYPE * stopping, armas_wbuf_t * W, armas_conf_t * cf)
+                        DTYPE * stopping, int *converged,
+                        armas_wbuf_t * W, armas_conf_t * cf)
 {
     armas_dense_t P, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop;
@@ -231,14 +232,18 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     nrm_r0 = armas_nrm2(&w, cf);
 
-    rstop = stopping && *stopping != ZERO ?
-        *stopping : EPS * nrm_r0 * A->cols;
+    rstop = EPS * nrm_r0 * A->cols;
+
+    // initial value may already be the solution
+    nrm_r1 = nrm_r0;
+    *converged = nrm_r1 <= rstop;
 
     int niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
+    for (int j = 0; j < maxiter && !*converged; j += m) {
         niter +=
             gmres_hh_fused(x, A, b, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
         if (nrm_r1 < rstop) {
+            *converged = 1;
             break;
         }
         // compute residual; w = b - A*x
@@ -246,6 +251,7 @@ int gmres_hh_loop_fused(armas_dense_t * x,
         armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     }
 
+    *stopping = nrm_r1;
     armas_wsetpos(W, pos);
     return niter;
 }
@@ -495,9 +501,14 @@ int armassp_gmres_w(armas_dense_t * x,
         me = n;
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
     DTYPE res = ZERO;
-    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, wb, cf);
+    int converged = 0;
+    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, &converged, wb, cf);
     cf->residual = res;
     cf->numiters = niter;
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 9f5fa94..c2d35e6 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -340,12 +340,15 @@ int armassp_pgmres_w(armas_dense_t * x,
         : (cf->smult > ZERO ? cf->smult * nrm_r0 : EPS * nrm_r0);
 
     // ------------------------------------------------------------------------
-    nrm_r1 = ZERO;
+    // initial value may already be the solution
+    nrm_r1 = nrm_r0;
+    int converged = nrm_r1 <= rstop;
     niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
+    for (int j = 0; j < maxiter && !converged; j += m) {
         niter +=
             pgmres_hh_pfused(x, A, b, M, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
         if (nrm_r1 < rstop) {
+            converged = 1;
             break;
         }
         // compute residual; w = b - A*x
@@ -358,6 +361,10 @@ int armassp_pgmres_w(armas_dense_t * x,
     cf->residual = nrm_r1;
     cf->numiters = niter;
 
+    if (!converged) {
+        cf->error = ARMAS_ECONVERGE;
+        return -ARMAS_ECONVERGE;
+    }
     return 0;
 }
 
-- 
2.43.0


From 4c0a0cd2d598ce336a81819eb1a59618c1257d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 217/245] fix: armassp_gmres: stopping criteria of the
 configuration were ignored

---
 src/sparse/gmres.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index 986ceeb..aa5ce2b 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -232,7 +232,8 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     nrm_r0 = armas_nrm2(&w, cf);
 
-    rstop = EPS * nrm_r0 * A->cols;
+    rstop = cf->stop > ZERO ? cf->stop
+        : (cf->smult > ZERO ? cf->smult * nrm_r0 : EPS * nrm_r0 * A->cols);
 
     // initial value may already be the solution
     nrm_r1 = nrm_r0;
-- 
2.43.0


From 1016828d1a42d39ec8676ec99e1e63413d95552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 218/245] fix: armassp_cgnr: workspace size did not cover all
 four work vectors

---
 src/sparse/cgnr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index d11aecd..1581806 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -47,7 +47,7 @@
  *  b,r,w = [m,1]
  */
 
-#define CGNR_WSIZE(m, n)  ((2*(n) + (m))*sizeof(DTYPE))
+#define CGNR_WSIZE(m, n)  (2*((n) + (m))*sizeof(DTYPE))
 
 static inline
 int check_parms(const armas_dense_t * x,
-- 
2.43.0


From 03302f5906821e50870fbf8e3d4bdb65ed2b2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 219/245] fix: armassp_iluz: zero pivot was not reported,
 factors were not finite

---
 src/sparse/iluz.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index a8abd44..cb9eb87 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -62,6 +62,8 @@ int csr_iluz(armas_sparse_t * L)
             return -ARMAS_ESINGULAR;
         // p0 points to diagonal entry; p0+1 start of a12^T
         a11 = armassp_value(L, p0);
+        if (a11 == ZERO)
+            return -ARMAS_ESINGULAR;
 
         // l21 = a21/a11; A22 = A22 - l21*a12^T
         for (k = i + 1; k < L->rows; k++) {
@@ -104,6 +106,8 @@ int csc_iluz(armas_sparse_t * L)
             return -ARMAS_ESINGULAR;
         // p0 points to diagonal entry; p0+1 start of a21
         a11 = armassp_value(L, p0);
+        if (a11 == ZERO)
+            return -ARMAS_ESINGULAR;
 
         // l21 = a21/a11
         for (p = p0 + 1; p < armassp_index(L, i + 1); p++) {
-- 
2.43.0


From 68cd280625fd9293958524ab55d354702852646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 220/245] fix: armassp_cgnr: iteration diverged when criterion
 was below rounding errors

---
 src/sparse/cgnr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 1581806..9769b18 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -182,7 +182,9 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
         dot_z = armas_dot(&z, &z, cf);
         dot_p = armas_dot(&Ap, &Ap, cf);
-        alpha = dot_z / dot_p;
+        // (p, z) equals (z, z) until rounding dominates; after that only the former
+        // keeps the step from diverging
+        alpha = armas_dot(&p, &z, cf) / dot_p;
 
         // x = x + alpha*p
         armas_axpy(x, alpha, &p, cf);
-- 
2.43.0


From ffd5b22be3f057173ea2385a3c329a7beeaacd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 221/245] fix: SSE kernel mult2c2: uninitialised value was used
 for odd inner dimension

---
 src/include/x86_64/mult_sse_f64.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/x86_64/mult_sse_f64.h b/src/include/x86_64/mult_sse_f64.h
index e97c378..081c4bb 100644
--- a/src/include/x86_64/mult_sse_f64.h
+++ b/src/include/x86_64/mult_sse_f64.h
@@ -181,6 +181,7 @@ void __mult2c2(double *c0, double *c1,
   if (k == nR)
     goto update;
 
+  Z = _mm_set1_pd(0.0);
   A0 = mm_load_A(&a0[k]);
   A1 = mm_load_A(&a1[k]);
   A0 = _mm_blend_pd(A0, Z, 0x2);
-- 
2.43.0


From 2e4d96fb046b1e1dab29683512a6b083503aae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 222/245] fix: BLAS level 3: failed cache buffer allocation
 gave wrong results in routines built on them

---
 src/base/cache.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 02e9996..fac96da 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -457,6 +457,18 @@ void armas_cache_setup(cache_t *cache, armas_cbuf_t *cbuf, int three, size_t p)
 
 static __thread void *cbuf_ptr = (void *)0;
 
+/* Used when memory for cache buffer is not available; smallest size that can be split. */
+static __thread char cbuf_small[CACHEMIN] __attribute__((aligned(CACHELINE)));
+
+static void cbuf_make_small(armas_cbuf_t *cbuf, size_t l1mem)
+{
+    cbuf->__unaligned = (void *)0;
+    cbuf->__nbytes = 0;
+    cbuf->data = cbuf_small;
+    cbuf->len = cbuf->cmem = CACHEMIN;
+    cbuf->l1mem = l1mem;
+}
+
 extern void armas_on_exit(void *);
 
 /**
@@ -518,15 +530,17 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         }
     }
     if (cf && (cf->optflags & ARMAS_CBUF_LOCAL) != 0) {
-        return armas_cbuf_init(cbuf, env->cmem, env->l1mem) ? 0 : -1;
+        if (!armas_cbuf_init(cbuf, env->cmem, env->l1mem))
+            cbuf_make_small(cbuf, env->l1mem);
+        return 0;
     }
 
     cb = armas_cbuf_create_thread_global();
-    if (cb) {
+    if (cb)
         *cbuf = *cb;
-        return 0;
-    }
-    return -1;
+    else
+        cbuf_make_small(cbuf, env->l1mem);
+    return 0;
 }
 
 //! @}
-- 
2.43.0


From 8b141092757de4719225fdfd36c064419cff9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 223/245] fix: sparse solvers, armassp_add: failed memory
 allocation was reported as too small workspace

---
 src/sparse/add.c    | 2 +-
 src/sparse/cgne.c   | 2 +-
 src/sparse/cgnr.c   | 2 +-
 src/sparse/cgrad.c  | 2 +-
 src/sparse/gmres.c  | 2 +-
 src/sparse/pcgrad.c | 2 +-
 src/sparse/pgmres.c | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sparse/add.c b/src/sparse/add.c
index df23258..d38176c 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -381,7 +381,7 @@ armas_sparse_t *armassp_add(DTYPE alpha,
         return C;
 
     if (work.bytes > 0 && !armas_walloc(&work, work.bytes)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return C;
     }
     // allocate target matrix; size estimate 
diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index fad0a5a..a6721e1 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -248,7 +248,7 @@ int armassp_cgne(armas_dense_t * x,
     }
 
     if (!armas_walloc(&W, W.bytes)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return -1;
     }
     stat = armassp_cgne_w(x, A, b, &W, cf);
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 9769b18..235c51e 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -240,7 +240,7 @@ int armassp_cgnr(armas_dense_t * x,
     }
 
     if (!armas_walloc(&W, W.bytes)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return -1;
     }
     stat = armassp_cgnr_w(x, A, b, &W, cf);
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index e1e4b21..919ad6f 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -228,7 +228,7 @@ int armassp_cgrad(armas_dense_t * x,
         return stat;
     }
     if (!armas_walloc(&W, W.bytes)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return -ARMAS_EWORK;
     }
     stat = armassp_cgrad_w(x, A, b, flags, &W, cf);
diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index aa5ce2b..267c00b 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -536,7 +536,7 @@ int armassp_gmres(armas_dense_t * x,
 
     int nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return -1;
     }
     int stat = armassp_gmres_w(x, A, b, &W, cf);
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 0a33bca..b270556 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -250,7 +250,7 @@ int armassp_pcgrad(armas_dense_t * x,
         return -1;
     }
     if (!armas_walloc(&W, W.bytes)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return -1;
     }
     stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf);
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index c2d35e6..7285491 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -392,7 +392,7 @@ int armassp_pgmres(armas_dense_t * x,       /*  */
 
     int nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
-        cf->error = ARMAS_EWORK;
+        cf->error = ARMAS_EMEMORY;
         return -1;
     }
     int stat = armassp_pgmres_w(x, A, b, M, &W, cf);
-- 
2.43.0


From 018badb81bf9625c318cff7365d21f143bc2ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 224/245] fix: armas_dqds: failed memory allocation was
 reported as too small workspace

---
 src/lapack/dqds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index 7e7efb2..a3e59db 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -1092,7 +1092,7 @@ int armas_dqds(armas_dense_t * D, armas_dense_t * E, armas_conf_t * conf)
         wbs = &wb;
         if (wb.bytes > 0) {
             if (!armas_walloc(&wb, wb.bytes)) {
-                conf->error = ARMAS_EWORK;
+                conf->error = ARMAS_EMEMORY;
                 return -1;
             }
         } else
-- 
2.43.0


From 6d357d672d2cd49c195dd983b987200981b5c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 225/245] fix: matrix multiplication kernels: stale values in
 cache buffer entered the result when they were not finite

---
 src/include/x86_64/mult_avx_f32.h |  66 +++++++++----------
 src/include/x86_64/mult_avx_f64.h | 102 +++++++++++++++---------------
 src/include/x86_64/mult_fma_f32.h |  66 +++++++++----------
 src/include/x86_64/mult_fma_f64.h | 102 +++++++++++++++---------------
 src/include/x86_64/mult_sse_f64.h |  66 +++++++++----------
 5 files changed, 201 insertions(+), 201 deletions(-)

diff --git a/src/include/x86_64/mult_avx_f32.h b/src/include/x86_64/mult_avx_f32.h
index e4e83d7..52184b7 100644
--- a/src/include/x86_64/mult_avx_f32.h
+++ b/src/include/x86_64/mult_avx_f32.h
@@ -71,10 +71,10 @@ void __mult1c4(float *c0, float *c1, float *c2, float *c3,
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   A0 = _mm256_blendv_ps(A0, Z, M);
 
-  y0 += _mm256_mul_ps(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_ps(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_ps(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_ps(A0, mm_load_B(&b3[k]));
+  y0 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b2[k]), Z, M));
+  y3 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -120,15 +120,15 @@ void __mult2c4(float *c0, float *c1, float *c2, float *c3,
   A0 = _mm256_blendv_ps(A0, Z, M);
   A1 = _mm256_blendv_ps(A1, Z, M);
 
-  y0 += _mm256_mul_ps(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_ps(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_ps(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_ps(A0, mm_load_B(&b3[k]));
+  y0 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b2[k]), Z, M));
+  y3 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b3[k]), Z, M));
 
-  y4 += _mm256_mul_ps(A1, mm_load_B(&b0[k]));
-  y5 += _mm256_mul_ps(A1, mm_load_B(&b1[k]));
-  y6 += _mm256_mul_ps(A1, mm_load_B(&b2[k]));
-  y7 += _mm256_mul_ps(A1, mm_load_B(&b3[k]));
+  y4 += _mm256_mul_ps(A1, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M));
+  y5 += _mm256_mul_ps(A1, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M));
+  y6 += _mm256_mul_ps(A1, _mm256_blendv_ps(mm_load_B(&b2[k]), Z, M));
+  y7 += _mm256_mul_ps(A1, _mm256_blendv_ps(mm_load_B(&b3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -167,8 +167,8 @@ void __mult1c2(float *c0, float *c1,
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   A0 = _mm256_blendv_ps(A0, Z, M);
 
-  y0 += _mm256_mul_ps(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_ps(A0, mm_load_B(&b1[k]));
+  y0 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -209,10 +209,10 @@ void __mult2c2(float *c0, float *c1,
   A0 = _mm256_blendv_ps(A0, Z, M);
   A1 = _mm256_blendv_ps(A1, Z, M);
 
-  y0 += _mm256_mul_ps(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_ps(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_ps(A1, mm_load_B(&b0[k]));
-  y3 += _mm256_mul_ps(A1, mm_load_B(&b1[k]));
+  y0 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_ps(A1, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M));
+  y3 += _mm256_mul_ps(A1, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -240,7 +240,7 @@ void __mult1c1(float *c, const float *a, const float *b, float alpha, int nR)
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   A = _mm256_blendv_ps(A, Z, M);
 
-  y0 += _mm256_mul_ps(A, mm_load_B(&b[k]));
+  y0 += _mm256_mul_ps(A, _mm256_blendv_ps(mm_load_B(&b[k]), Z, M));
 
 update:
   c[0] += alpha*hsum_f32x8(y0);
@@ -277,10 +277,10 @@ void __mult4c1(float *c0,
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   B0 = _mm256_blendv_ps(B0, Z, M);
 
-  y0 += _mm256_mul_ps(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_ps(B0, mm_load_A(&a1[k]));
-  y2 += _mm256_mul_ps(B0, mm_load_A(&a2[k]));
-  y3 += _mm256_mul_ps(B0, mm_load_A(&a3[k]));
+  y0 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M));
+  y1 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M));
+  y2 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a2[k]), Z, M));
+  y3 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -326,14 +326,14 @@ void __mult4c2(float *c0, float *c1,
   B0 = _mm256_blendv_ps(B0, Z, M);
   B1 = _mm256_blendv_ps(B1, Z, M);
 
-  y0 += _mm256_mul_ps(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_ps(B0, mm_load_A(&a1[k]));
-  y2 += _mm256_mul_ps(B0, mm_load_A(&a2[k]));
-  y3 += _mm256_mul_ps(B0, mm_load_A(&a3[k]));
-  y4 += _mm256_mul_ps(B1, mm_load_A(&a0[k]));
-  y5 += _mm256_mul_ps(B1, mm_load_A(&a1[k]));
-  y6 += _mm256_mul_ps(B1, mm_load_A(&a2[k]));
-  y7 += _mm256_mul_ps(B1, mm_load_A(&a3[k]));
+  y0 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M));
+  y1 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M));
+  y2 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a2[k]), Z, M));
+  y3 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a3[k]), Z, M));
+  y4 += _mm256_mul_ps(B1, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M));
+  y5 += _mm256_mul_ps(B1, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M));
+  y6 += _mm256_mul_ps(B1, _mm256_blendv_ps(mm_load_A(&a2[k]), Z, M));
+  y7 += _mm256_mul_ps(B1, _mm256_blendv_ps(mm_load_A(&a3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -373,8 +373,8 @@ void __mult2c1(float *c0,
   B0 = mm_load_B(&b0[k]);
   B0 = _mm256_blendv_ps(B0, Z, M);
 
-  y0 += _mm256_mul_ps(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_ps(B0, mm_load_A(&a1[k]));
+  y0 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M));
+  y1 += _mm256_mul_ps(B0, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
diff --git a/src/include/x86_64/mult_avx_f64.h b/src/include/x86_64/mult_avx_f64.h
index 76f2c7e..ce42f83 100644
--- a/src/include/x86_64/mult_avx_f64.h
+++ b/src/include/x86_64/mult_avx_f64.h
@@ -73,12 +73,12 @@ void __mult1c6(double *c0, double *c1, double *c2, double *c3, double *c4, doubl
   A0 = mm_load_A(&a[k]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
-  y4 += _mm256_mul_pd(A0, mm_load_B(&b4[k]));
-  y5 += _mm256_mul_pd(A0, mm_load_B(&b5[k]));
+  y0 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M));
+  y3 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M));
+  y4 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b4[k]), Z, M));
+  y5 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b5[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -130,19 +130,19 @@ void __mult2c6(double *c0, double *c1, double *c2, double *c3, double *c4, doubl
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
-  y4 += _mm256_mul_pd(A0, mm_load_B(&b4[k]));
-  y5 += _mm256_mul_pd(A0, mm_load_B(&b5[k]));
+  y0 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M));
+  y3 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M));
+  y4 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b4[k]), Z, M));
+  y5 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b5[k]), Z, M));
 
-  y6  += _mm256_mul_pd(A1, mm_load_B(&b0[k]));
-  y7  += _mm256_mul_pd(A1, mm_load_B(&b1[k]));
-  y8  += _mm256_mul_pd(A1, mm_load_B(&b2[k]));
-  y9  += _mm256_mul_pd(A1, mm_load_B(&b3[k]));
-  y10 += _mm256_mul_pd(A1, mm_load_B(&b4[k]));
-  y11 += _mm256_mul_pd(A1, mm_load_B(&b5[k]));
+  y6  += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y7  += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y8  += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M));
+  y9  += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M));
+  y10 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b4[k]), Z, M));
+  y11 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b5[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -185,10 +185,10 @@ void __mult1c4(double *c0, double *c1, double *c2, double *c3,
   A0 = mm_load_A(&a[k]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
+  y0 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M));
+  y3 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -234,15 +234,15 @@ void __mult2c4(double *c0, double *c1, double *c2, double *c3,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm256_mul_pd(A0, mm_load_B(&b3[k]));
+  y0 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M));
+  y3 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M));
 
-  y4 += _mm256_mul_pd(A1, mm_load_B(&b0[k]));
-  y5 += _mm256_mul_pd(A1, mm_load_B(&b1[k]));
-  y6 += _mm256_mul_pd(A1, mm_load_B(&b2[k]));
-  y7 += _mm256_mul_pd(A1, mm_load_B(&b3[k]));
+  y4 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y5 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y6 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M));
+  y7 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -281,8 +281,8 @@ void __mult1c2(double *c0, double *c1,
   A0 = mm_load_A(&a[k]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
+  y0 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -323,10 +323,10 @@ void __mult2c2(double *c0, double *c1,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 += _mm256_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm256_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm256_mul_pd(A1, mm_load_B(&b0[k]));
-  y3 += _mm256_mul_pd(A1, mm_load_B(&b1[k]));
+  y0 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y1 += _mm256_mul_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
+  y2 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M));
+  y3 += _mm256_mul_pd(A1, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -354,7 +354,7 @@ void __mult1c1(double *c, const double *a, const double *b, double alpha, int nR
   A = mm_load_A(&a[k]);
   A = _mm256_blendv_pd(A, Z, M);
 
-  y0 += _mm256_mul_pd(A, mm_load_B(&b[k]));
+  y0 += _mm256_mul_pd(A, _mm256_blendv_pd(mm_load_B(&b[k]), Z, M));
 
 update:
   c[0] += alpha*hsum_f64x4(y0);
@@ -391,10 +391,10 @@ void __mult4c1(double *c0,
   B0 = mm_load_B(&b0[k]);
   B0 = _mm256_blendv_pd(B0, Z, M);
 
-  y0 += _mm256_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_pd(B0, mm_load_A(&a1[k]));
-  y2 += _mm256_mul_pd(B0, mm_load_A(&a2[k]));
-  y3 += _mm256_mul_pd(B0, mm_load_A(&a3[k]));
+  y0 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M));
+  y1 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M));
+  y2 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a2[k]), Z, M));
+  y3 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -440,14 +440,14 @@ void __mult4c2(double *c0, double *c1,
   B0 = _mm256_blendv_pd(B0, Z, M);
   B1 = _mm256_blendv_pd(B1, Z, M);
 
-  y0 += _mm256_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_pd(B0, mm_load_A(&a1[k]));
-  y2 += _mm256_mul_pd(B0, mm_load_A(&a2[k]));
-  y3 += _mm256_mul_pd(B0, mm_load_A(&a3[k]));
-  y4 += _mm256_mul_pd(B1, mm_load_A(&a0[k]));
-  y5 += _mm256_mul_pd(B1, mm_load_A(&a1[k]));
-  y6 += _mm256_mul_pd(B1, mm_load_A(&a2[k]));
-  y7 += _mm256_mul_pd(B1, mm_load_A(&a3[k]));
+  y0 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M));
+  y1 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M));
+  y2 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a2[k]), Z, M));
+  y3 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a3[k]), Z, M));
+  y4 += _mm256_mul_pd(B1, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M));
+  y5 += _mm256_mul_pd(B1, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M));
+  y6 += _mm256_mul_pd(B1, _mm256_blendv_pd(mm_load_A(&a2[k]), Z, M));
+  y7 += _mm256_mul_pd(B1, _mm256_blendv_pd(mm_load_A(&a3[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -487,8 +487,8 @@ void __mult2c1(double *c0,
   B0 = mm_load_B(&b0[k]);
   B0 = _mm256_blendv_pd(B0, Z, M);
 
-  y0 += _mm256_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm256_mul_pd(B0, mm_load_A(&a1[k]));
+  y0 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M));
+  y1 += _mm256_mul_pd(B0, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M));
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
diff --git a/src/include/x86_64/mult_fma_f32.h b/src/include/x86_64/mult_fma_f32.h
index 857381e..24ddcf5 100644
--- a/src/include/x86_64/mult_fma_f32.h
+++ b/src/include/x86_64/mult_fma_f32.h
@@ -73,10 +73,10 @@ void __mult1c4(float *c0, float *c1, float *c2, float *c3,
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   A0 = _mm256_blendv_ps(A0, Z, M);
 
-  y0 = _mm256_fmadd_ps(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_ps(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_ps(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_ps(A0, mm_load_B(&b3[k]), y3);
+  y0 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b3[k]), Z, M), y3);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -122,15 +122,15 @@ void __mult2c4(float *c0, float *c1, float *c2, float *c3,
   A0 = _mm256_blendv_ps(A0, Z, M);
   A1 = _mm256_blendv_ps(A1, Z, M);
 
-  y0 = _mm256_fmadd_ps(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_ps(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_ps(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_ps(A0, mm_load_B(&b3[k]), y3);
+  y0 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b3[k]), Z, M), y3);
 
-  y4 = _mm256_fmadd_ps(A1, mm_load_B(&b0[k]), y4);
-  y5 = _mm256_fmadd_ps(A1, mm_load_B(&b1[k]), y5);
-  y6 = _mm256_fmadd_ps(A1, mm_load_B(&b2[k]), y6);
-  y7 = _mm256_fmadd_ps(A1, mm_load_B(&b3[k]), y7);
+  y4 = _mm256_fmadd_ps(A1, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M), y4);
+  y5 = _mm256_fmadd_ps(A1, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M), y5);
+  y6 = _mm256_fmadd_ps(A1, _mm256_blendv_ps(mm_load_B(&b2[k]), Z, M), y6);
+  y7 = _mm256_fmadd_ps(A1, _mm256_blendv_ps(mm_load_B(&b3[k]), Z, M), y7);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -169,8 +169,8 @@ void __mult1c2(float *c0, float *c1,
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   A0 = _mm256_blendv_ps(A0, Z, M);
 
-  y0 = _mm256_fmadd_ps(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_ps(A0, mm_load_B(&b1[k]), y1);
+  y0 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M), y1);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -211,10 +211,10 @@ void __mult2c2(float *c0, float *c1,
   A0 = _mm256_blendv_ps(A0, Z, M);
   A1 = _mm256_blendv_ps(A1, Z, M);
 
-  y0 = _mm256_fmadd_ps(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_ps(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_ps(A1, mm_load_B(&b0[k]), y2);
-  y3 = _mm256_fmadd_ps(A1, mm_load_B(&b1[k]), y3);
+  y0 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(A0, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_ps(A1, _mm256_blendv_ps(mm_load_B(&b0[k]), Z, M), y2);
+  y3 = _mm256_fmadd_ps(A1, _mm256_blendv_ps(mm_load_B(&b1[k]), Z, M), y3);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -242,7 +242,7 @@ void __mult1c1(float *c, const float *a, const float *b, float alpha, int nR)
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   A = _mm256_blendv_ps(A, Z, M);
 
-  y0 = _mm256_fmadd_ps(A, mm_load_B(&b[k]), y0);
+  y0 = _mm256_fmadd_ps(A, _mm256_blendv_ps(mm_load_B(&b[k]), Z, M), y0);
 
 update:
   c[0] += alpha*hsum_f32x8(y0);
@@ -279,10 +279,10 @@ void __mult4c1(float *c0,
   M  = _mm256_load_ps((float *)&__masks_ps[nR-k][0]);
   B0 = _mm256_blendv_ps(B0, Z, M);
 
-  y0 = _mm256_fmadd_ps(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_ps(B0, mm_load_A(&a1[k]), y1);
-  y2 = _mm256_fmadd_ps(B0, mm_load_A(&a2[k]), y2);
-  y3 = _mm256_fmadd_ps(B0, mm_load_A(&a3[k]), y3);
+  y0 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a3[k]), Z, M), y3);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -328,14 +328,14 @@ void __mult4c2(float *c0, float *c1,
   B0 = _mm256_blendv_ps(B0, Z, M);
   B1 = _mm256_blendv_ps(B1, Z, M);
 
-  y0 = _mm256_fmadd_ps(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_ps(B0, mm_load_A(&a1[k]), y1);
-  y2 = _mm256_fmadd_ps(B0, mm_load_A(&a2[k]), y2);
-  y3 = _mm256_fmadd_ps(B0, mm_load_A(&a3[k]), y3);
-  y4 = _mm256_fmadd_ps(B1, mm_load_A(&a0[k]), y4);
-  y5 = _mm256_fmadd_ps(B1, mm_load_A(&a1[k]), y5);
-  y6 = _mm256_fmadd_ps(B1, mm_load_A(&a2[k]), y6);
-  y7 = _mm256_fmadd_ps(B1, mm_load_A(&a3[k]), y7);
+  y0 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a3[k]), Z, M), y3);
+  y4 = _mm256_fmadd_ps(B1, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M), y4);
+  y5 = _mm256_fmadd_ps(B1, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M), y5);
+  y6 = _mm256_fmadd_ps(B1, _mm256_blendv_ps(mm_load_A(&a2[k]), Z, M), y6);
+  y7 = _mm256_fmadd_ps(B1, _mm256_blendv_ps(mm_load_A(&a3[k]), Z, M), y7);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
@@ -375,8 +375,8 @@ void __mult2c1(float *c0,
   B0 = mm_load_B(&b0[k]);
   B0 = _mm256_blendv_ps(B0, Z, M);
 
-  y0 = _mm256_fmadd_ps(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_ps(B0, mm_load_A(&a1[k]), y1);
+  y0 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_ps(B0, _mm256_blendv_ps(mm_load_A(&a1[k]), Z, M), y1);
 
 update:
   c0[0] += alpha*hsum_f32x8(y0);
diff --git a/src/include/x86_64/mult_fma_f64.h b/src/include/x86_64/mult_fma_f64.h
index 7d50da6..91400b0 100644
--- a/src/include/x86_64/mult_fma_f64.h
+++ b/src/include/x86_64/mult_fma_f64.h
@@ -73,12 +73,12 @@ void __mult1c6(double *c0, double *c1, double *c2, double *c3,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
-  y4 = _mm256_fmadd_pd(A0, mm_load_B(&b4[k]), y4);
-  y5 = _mm256_fmadd_pd(A0, mm_load_B(&b5[k]), y5);
+  y0 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M), y3);
+  y4 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b4[k]), Z, M), y4);
+  y5 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b5[k]), Z, M), y5);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -129,19 +129,19 @@ void __mult2c6(double *c0, double *c1, double *c2, double *c3,
   A0  = _mm256_blendv_pd(A0, Z, M);
   A1  = _mm256_blendv_pd(A1, Z, M);
 
-  y0  = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1  = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2  = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3  = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
-  y4  = _mm256_fmadd_pd(A0, mm_load_B(&b4[k]), y4);
-  y5  = _mm256_fmadd_pd(A0, mm_load_B(&b5[k]), y5);
+  y0  = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y0);
+  y1  = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y1);
+  y2  = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M), y2);
+  y3  = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M), y3);
+  y4  = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b4[k]), Z, M), y4);
+  y5  = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b5[k]), Z, M), y5);
   
-  y6  = _mm256_fmadd_pd(A1, mm_load_B(&b0[k]), y6);
-  y7  = _mm256_fmadd_pd(A1, mm_load_B(&b1[k]), y7);
-  y8  = _mm256_fmadd_pd(A1, mm_load_B(&b2[k]), y8);
-  y9  = _mm256_fmadd_pd(A1, mm_load_B(&b3[k]), y9);
-  y10 = _mm256_fmadd_pd(A1, mm_load_B(&b4[k]), y10);
-  y11 = _mm256_fmadd_pd(A1, mm_load_B(&b5[k]), y11);
+  y6  = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y6);
+  y7  = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y7);
+  y8  = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M), y8);
+  y9  = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M), y9);
+  y10 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b4[k]), Z, M), y10);
+  y11 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b5[k]), Z, M), y11);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -186,10 +186,10 @@ void __mult1c4(double *c0, double *c1, double *c2, double *c3,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
+  y0 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M), y3);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -235,15 +235,15 @@ void __mult2c4(double *c0, double *c1, double *c2, double *c3,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A0, mm_load_B(&b2[k]), y2);
-  y3 = _mm256_fmadd_pd(A0, mm_load_B(&b3[k]), y3);
+  y0 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M), y3);
 
-  y4 = _mm256_fmadd_pd(A1, mm_load_B(&b0[k]), y4);
-  y5 = _mm256_fmadd_pd(A1, mm_load_B(&b1[k]), y5);
-  y6 = _mm256_fmadd_pd(A1, mm_load_B(&b2[k]), y6);
-  y7 = _mm256_fmadd_pd(A1, mm_load_B(&b3[k]), y7);
+  y4 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y4);
+  y5 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y5);
+  y6 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b2[k]), Z, M), y6);
+  y7 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b3[k]), Z, M), y7);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -282,8 +282,8 @@ void __mult1c2(double *c0, double *c1,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A0 = _mm256_blendv_pd(A0, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
+  y0 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y1);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -324,10 +324,10 @@ void __mult2c2(double *c0, double *c1,
   A0 = _mm256_blendv_pd(A0, Z, M);
   A1 = _mm256_blendv_pd(A1, Z, M);
 
-  y0 = _mm256_fmadd_pd(A0, mm_load_B(&b0[k]), y0);
-  y1 = _mm256_fmadd_pd(A0, mm_load_B(&b1[k]), y1);
-  y2 = _mm256_fmadd_pd(A1, mm_load_B(&b0[k]), y2);
-  y3 = _mm256_fmadd_pd(A1, mm_load_B(&b1[k]), y3);
+  y0 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(A0, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b0[k]), Z, M), y2);
+  y3 = _mm256_fmadd_pd(A1, _mm256_blendv_pd(mm_load_B(&b1[k]), Z, M), y3);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -355,7 +355,7 @@ void __mult1c1(double *c, const double *a, const double *b, double alpha, int nR
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   A = _mm256_blendv_pd(A, Z, M);
 
-  y0 = _mm256_fmadd_pd(A, mm_load_B(&b[k]), y0);
+  y0 = _mm256_fmadd_pd(A, _mm256_blendv_pd(mm_load_B(&b[k]), Z, M), y0);
 
 update:
   c[0] += alpha*hsum_f64x4(y0);
@@ -392,10 +392,10 @@ void __mult4c1(double *c0,
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   B0 = _mm256_blendv_pd(B0, Z, M);
 
-  y0 = _mm256_fmadd_pd(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_pd(B0, mm_load_A(&a1[k]), y1);
-  y2 = _mm256_fmadd_pd(B0, mm_load_A(&a2[k]), y2);
-  y3 = _mm256_fmadd_pd(B0, mm_load_A(&a3[k]), y3);
+  y0 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a3[k]), Z, M), y3);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -441,14 +441,14 @@ void __mult4c2(double *c0, double *c1,
   B0 = _mm256_blendv_pd(B0, Z, M);
   B1 = _mm256_blendv_pd(B1, Z, M);
 
-  y0 = _mm256_fmadd_pd(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_pd(B0, mm_load_A(&a1[k]), y1);
-  y2 = _mm256_fmadd_pd(B0, mm_load_A(&a2[k]), y2);
-  y3 = _mm256_fmadd_pd(B0, mm_load_A(&a3[k]), y3);
-  y4 = _mm256_fmadd_pd(B1, mm_load_A(&a0[k]), y4);
-  y5 = _mm256_fmadd_pd(B1, mm_load_A(&a1[k]), y5);
-  y6 = _mm256_fmadd_pd(B1, mm_load_A(&a2[k]), y6);
-  y7 = _mm256_fmadd_pd(B1, mm_load_A(&a3[k]), y7);
+  y0 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M), y1);
+  y2 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a2[k]), Z, M), y2);
+  y3 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a3[k]), Z, M), y3);
+  y4 = _mm256_fmadd_pd(B1, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M), y4);
+  y5 = _mm256_fmadd_pd(B1, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M), y5);
+  y6 = _mm256_fmadd_pd(B1, _mm256_blendv_pd(mm_load_A(&a2[k]), Z, M), y6);
+  y7 = _mm256_fmadd_pd(B1, _mm256_blendv_pd(mm_load_A(&a3[k]), Z, M), y7);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
@@ -487,8 +487,8 @@ void __mult2c1(double *c0,
   B0 = mm_load_B(&b0[k]);
   M  = _mm256_load_pd((double *)&__masks_pd[nR-k][0]);
   B0 = _mm256_blendv_pd(B0, Z, M);
-  y0 = _mm256_fmadd_pd(B0, mm_load_A(&a0[k]), y0);
-  y1 = _mm256_fmadd_pd(B0, mm_load_A(&a1[k]), y1);
+  y0 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a0[k]), Z, M), y0);
+  y1 = _mm256_fmadd_pd(B0, _mm256_blendv_pd(mm_load_A(&a1[k]), Z, M), y1);
 
 update:
   c0[0] += alpha*hsum_f64x4(y0);
diff --git a/src/include/x86_64/mult_sse_f64.h b/src/include/x86_64/mult_sse_f64.h
index 081c4bb..1611b33 100644
--- a/src/include/x86_64/mult_sse_f64.h
+++ b/src/include/x86_64/mult_sse_f64.h
@@ -54,10 +54,10 @@ void __mult1c4(double *c0, double *c1, double *c2, double *c3,
   Z = _mm_set1_pd(0.0);
   A0 = mm_load_A(&a[k]);
   A0 = _mm_blend_pd(A0, Z, 0x2);
-  y0 += _mm_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm_mul_pd(A0, mm_load_B(&b3[k]));
+  y0 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b1[k]), Z, 0x2));
+  y2 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b2[k]), Z, 0x2));
+  y3 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b3[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
@@ -103,14 +103,14 @@ void __mult2c4(double *c0, double *c1, double *c2, double *c3,
   A1 = mm_load_A(&a1[k]);
   A0 = _mm_blend_pd(A0, Z, 0x2);
   A1 = _mm_blend_pd(A1, Z, 0x2);
-  y0 += _mm_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm_mul_pd(A0, mm_load_B(&b2[k]));
-  y3 += _mm_mul_pd(A0, mm_load_B(&b3[k]));
-  y4 += _mm_mul_pd(A1, mm_load_B(&b0[k]));
-  y5 += _mm_mul_pd(A1, mm_load_B(&b1[k]));
-  y6 += _mm_mul_pd(A1, mm_load_B(&b2[k]));
-  y7 += _mm_mul_pd(A1, mm_load_B(&b3[k]));
+  y0 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b1[k]), Z, 0x2));
+  y2 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b2[k]), Z, 0x2));
+  y3 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b3[k]), Z, 0x2));
+  y4 += _mm_mul_pd(A1, _mm_blend_pd(mm_load_B(&b0[k]), Z, 0x2));
+  y5 += _mm_mul_pd(A1, _mm_blend_pd(mm_load_B(&b1[k]), Z, 0x2));
+  y6 += _mm_mul_pd(A1, _mm_blend_pd(mm_load_B(&b2[k]), Z, 0x2));
+  y7 += _mm_mul_pd(A1, _mm_blend_pd(mm_load_B(&b3[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
@@ -149,8 +149,8 @@ void __mult1c2(double *c0, double *c1,
   Z = _mm_set1_pd(0.0);
   A0 = mm_load_A(&a[k]);
   A0 = _mm_blend_pd(A0, Z, 0x2);
-  y0 += _mm_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm_mul_pd(A0, mm_load_B(&b1[k]));
+  y0 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b1[k]), Z, 0x2));
 update:
   ALPHA = _mm_set1_pd(alpha);
   y0 = _mm_mul_pd(ALPHA,_mm_hadd_pd(y0, y1));
@@ -186,10 +186,10 @@ void __mult2c2(double *c0, double *c1,
   A1 = mm_load_A(&a1[k]);
   A0 = _mm_blend_pd(A0, Z, 0x2);
   A1 = _mm_blend_pd(A1, Z, 0x2);
-  y0 += _mm_mul_pd(A0, mm_load_B(&b0[k]));
-  y1 += _mm_mul_pd(A0, mm_load_B(&b1[k]));
-  y2 += _mm_mul_pd(A1, mm_load_B(&b0[k]));
-  y3 += _mm_mul_pd(A1, mm_load_B(&b1[k]));
+  y0 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(A0, _mm_blend_pd(mm_load_B(&b1[k]), Z, 0x2));
+  y2 += _mm_mul_pd(A1, _mm_blend_pd(mm_load_B(&b0[k]), Z, 0x2));
+  y3 += _mm_mul_pd(A1, _mm_blend_pd(mm_load_B(&b1[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
@@ -220,7 +220,7 @@ void __mult1c1(double *c, const double *a, const double *b, double alpha, int nR
   Z = _mm_set1_pd(0.0);
   A = mm_load_A(&a[k]);
   A = _mm_blend_pd(A, Z, 0x2);
-  y0 += _mm_mul_pd(A, mm_load_B(&b[k]));
+  y0 += _mm_mul_pd(A, _mm_blend_pd(mm_load_B(&b[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
@@ -254,10 +254,10 @@ void __mult4c1(double *c0,
   Z = _mm_set1_pd(0.0);
   B0 = mm_load_B(&b0[k]);
   B0 = _mm_blend_pd(B0, Z, 0x2);
-  y0 += _mm_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm_mul_pd(B0, mm_load_A(&a1[k]));
-  y2 += _mm_mul_pd(B0, mm_load_A(&a2[k]));
-  y3 += _mm_mul_pd(B0, mm_load_A(&a3[k]));
+  y0 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a1[k]), Z, 0x2));
+  y2 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a2[k]), Z, 0x2));
+  y3 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a3[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
@@ -301,14 +301,14 @@ void __mult4c2(double *c0, double *c1,
   B0 = _mm_blend_pd(B0, Z, 0x2);
   B1 = mm_load_B(&b1[k]);
   B1 = _mm_blend_pd(B1, Z, 0x2);
-  y0 += _mm_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm_mul_pd(B0, mm_load_A(&a1[k]));
-  y2 += _mm_mul_pd(B0, mm_load_A(&a2[k]));
-  y3 += _mm_mul_pd(B0, mm_load_A(&a3[k]));
-  y4 += _mm_mul_pd(B1, mm_load_A(&a0[k]));
-  y5 += _mm_mul_pd(B1, mm_load_A(&a1[k]));
-  y6 += _mm_mul_pd(B1, mm_load_A(&a2[k]));
-  y7 += _mm_mul_pd(B1, mm_load_A(&a3[k]));
+  y0 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a1[k]), Z, 0x2));
+  y2 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a2[k]), Z, 0x2));
+  y3 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a3[k]), Z, 0x2));
+  y4 += _mm_mul_pd(B1, _mm_blend_pd(mm_load_A(&a0[k]), Z, 0x2));
+  y5 += _mm_mul_pd(B1, _mm_blend_pd(mm_load_A(&a1[k]), Z, 0x2));
+  y6 += _mm_mul_pd(B1, _mm_blend_pd(mm_load_A(&a2[k]), Z, 0x2));
+  y7 += _mm_mul_pd(B1, _mm_blend_pd(mm_load_A(&a3[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
@@ -349,8 +349,8 @@ void __mult2c1(double *c0,
   Z = _mm_set1_pd(0.0);
   B0 = mm_load_B(&b0[k]);
   B0 = _mm_blend_pd(B0, Z, 0x2);
-  y0 += _mm_mul_pd(B0, mm_load_A(&a0[k]));
-  y1 += _mm_mul_pd(B0, mm_load_A(&a1[k]));
+  y0 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a0[k]), Z, 0x2));
+  y1 += _mm_mul_pd(B0, _mm_blend_pd(mm_load_A(&a1[k]), Z, 0x2));
 
 update:
   ALPHA = _mm_set1_pd(alpha);
-- 
2.43.0


From dcb36b25b4aaaca0e8dc64212d2294eabff13130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 226/245] fix: configuration strings of environment were
 modified by parsing, out of range values gave unusable configuration

---
 src/base/env.c | 133 +++++++++++++++++++++++++++++--------------------
 1 file changed, 79 insertions(+), 54 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..cf8072d 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <math.h>
 #include <ctype.h>
+#include <pthread.h>
 
 #include "armas.h"
 
@@ -50,9 +51,6 @@ static struct armas_conf __default_conf = {
     .residual = 0.0       // last residual computed (output)
 };
 
-static int has_read_environment = 0;
-
-
 #ifndef ENV_ARMAS_CONFIG
 #define ENV_ARMAS_CONFIG "ARMAS_CONFIG"
 #endif
@@ -63,85 +61,112 @@ static int has_read_environment = 0;
 #define ENV_ARMAS_DEBUG  "ARMAS_DEBUG"
 #endif
 
+/* Largest accepted block or vector size, element count. */
+#define ENV_BLOCK_MAX (1L << 20)
+#define ENV_LEN_MAX   (1L << 30)
+/* Largest accepted memory size */
+#define ENV_MEM_MAX   (1UL << 40)
+
+/*
+ * Parse positive number from start of comma separated field. Returns default value
+ * if number missing or out of range.
+ */
 static
-void armas_read_environment()
+int parse_number(const char *str, long minval, long maxval, int dval)
 {
-    char *cstr, *tok;
-    int n, val;
+    char *endptr;
+    long val = strtol(str, &endptr, 10);
+    if (endptr == str || val <= 0 || val > maxval)
+        return dval;
+    return val < minval ? minval : val;
+}
+
+static
+size_t parse_size(const char *str, size_t minval, size_t dval)
+{
+    char *endptr;
+    size_t unit = 1;
+    size_t val = strtoul(str, &endptr, 0);
+    if (endptr == str || val == 0)
+        return dval;
+    switch (toupper((unsigned char)*endptr)) {
+    case 'K':
+        unit = 1024;
+        break;
+    case 'M':
+        unit = 1024*1024;
+        break;
+    default:
+        break;
+    }
+    if (val > ENV_MEM_MAX / unit)
+        return dval;
+    val *= unit;
+    return val < minval ? minval : val;
+}
 
-    if (has_read_environment)
-        return;
+static
+void read_environment()
+{
+    const char *str;
+    int n;
 
-    cstr = getenv(ENV_ARMAS_CONFIG);
+    // Strings are not modified; they belong to the environment of the process.
+    str = getenv(ENV_ARMAS_CONFIG);
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
-    for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
-        val = atoi(tok);
+    for (n = 0; str; n++) {
         switch (n) {
         case 0:
-            if (val > 0)
-                __env_config.mb = val;
+            __env_config.mb = parse_number(str, 1, ENV_BLOCK_MAX, __env_config.mb);
             break;
         case 1:
-            if (val > 0)
-                __env_config.nb = val;
+            __env_config.nb = parse_number(str, 1, ENV_BLOCK_MAX, __env_config.nb);
             break;
         case 2:
-            if (val > 0)
-                __env_config.kb = val;
+            __env_config.kb = parse_number(str, 1, ENV_BLOCK_MAX, __env_config.kb);
             break;
         case 3:
-            if (val > 0)
-                __env_config.lb = val;
+            __env_config.lb = parse_number(str, 1, ENV_BLOCK_MAX, __env_config.lb);
             break;
         case 4:
-            if (val > 0)
-                __env_config.blas1min = val;
+            // recursion needs at least two elements
+            __env_config.blas1min = parse_number(str, 2, ENV_LEN_MAX, __env_config.blas1min);
             break;
         case 5:
-            if (val > 0)
-                __env_config.blas2min = val;
+            __env_config.blas2min = parse_number(str, 2, ENV_LEN_MAX, __env_config.blas2min);
             break;
         case 6:
         default:
-            __env_config.fixed = tok && tolower(*tok) == 'y';
+            __env_config.fixed = tolower((unsigned char)*str) == 'y';
             break;
         }
+        str = strchr(str, ',');
+        if (str)
+            str++;
     }
 
     // get cache memory size; L2MEM,L1MEM
-    cstr = getenv(ENV_ARMAS_CACHE);
-    if (cstr) {
-        char *endptr;
-        size_t val;
-        for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
-            endptr = (char *)0;
-            val = strtoul(tok, &endptr, 0);
-            if (endptr) {
-                switch (toupper(*endptr)) {
-                case 'K':
-                    val *= 1024;
-                    break;
-                case 'M':
-                    val *= 1024*1024;
-                    break;
-                default:
-                    break;
-                }
-            }
-            switch (n) {
-            case 0:
-                if (val > 0)
-                    __env_config.cmem =  val < CMEM_MIN ? CMEM_MIN : val;;
-                break;
-            case 1:
-                if (val > 0)
-                    __env_config.l1mem =  val < L1MEM_MIN ? L1MEM_MIN : val;;
-                break;
-            }
+    str = getenv(ENV_ARMAS_CACHE);
+    for (n = 0; str && n < 2; n++) {
+        switch (n) {
+        case 0:
+            __env_config.cmem = parse_size(str, CMEM_MIN, __env_config.cmem);
+            break;
+        case 1:
+            __env_config.l1mem = parse_size(str, L1MEM_MIN, __env_config.l1mem);
+            break;
         }
+        str = strchr(str, ',');
+        if (str)
+            str++;
     }
+}
 
-    has_read_environment = 1;
+static
+void armas_read_environment()
+{
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+    pthread_once(&once, read_environment);
 }
 
 /**
-- 
2.43.0


From 80be35810bbf764c21e6d97f17caec05d033c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 227/245] fix: accelerator configuration: string was modified
 by parsing, zero step of CPU range did not end, mask was limited to 31 CPUs

---
 src/base/accel.c | 50 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..37e7048 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -10,7 +10,9 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <ctype.h>
+#include <limits.h>
 #include <sched.h>
+#include <pthread.h>
 
 #include "armas.h"
 #include "accel.h"
@@ -157,7 +159,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 {
     char *tok, *s0, *s1;
     char *cstr = str;
-    int n, i, val, start, end, step;
+    int n;
+    long i, val, start, end, step;
     unsigned long bits;
     long nproc = sysconf(_SC_NPROCESSORS_ONLN);;
 
@@ -181,9 +184,11 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
                 bits = strtoul(tok, NULL, 16);
             }
 
+            if (start < 0)
+                continue;
             // only processer number less than nproc
-            for (i = 0; i < 8 * sizeof(val) && start + i < nproc; i++) {
-                if ((bits & (1 << i)) != 0) {
+            for (i = 0; i < 8 * sizeof(bits) && i < nproc - start; i++) {
+                if ((bits & (1UL << i)) != 0) {
                     CPU_SET(start + i, &env->cpus);
                 }
             }
@@ -198,12 +203,16 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
             end = strtol(s0 + 1, NULL, 10);
+            if (start < 0 || step < 1)
+                continue;
+            if (step > nproc)
+                step = nproc;
             for (i = start; i <= end && i < nproc; i += step) {
                 CPU_SET(i, &env->cpus);
             }
         } else {
             val = strtol(tok, NULL, 10);
-            if (val < nproc)
+            if (val >= 0 && val < nproc)
                 CPU_SET(val, &env->cpus);
         }
     }
@@ -214,8 +223,11 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
  */
 void armas_ac_read_env(struct armas_ac_env *env)
 {
-    int n, val;
-    char *tok, *cstr;
+    int n;
+    long val;
+    size_t len;
+    char tok[64];
+    const char *cstr;
 
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
     cstr = getenv(ENV_ARMAS_AC_CONFIG);
@@ -224,15 +236,21 @@ void armas_ac_read_env(struct armas_ac_env *env)
     /* parse string:
      *   ELEMS_PER_THREAD,MAXPROCESSORS,POLICY,CPUSPEC [,CPUSPEC]
      */
-    for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
+    for (n = 0; cstr; n++) {
+        // string belongs to the environment of the process; parse copy of the field
+        len = strcspn(cstr, ",");
+        memset(tok, 0, sizeof(tok));
+        memcpy(tok, cstr, len < sizeof(tok) ? len : sizeof(tok) - 1);
+        cstr = cstr[len] ? &cstr[len + 1] : NULL;
+
         switch (n) {
         case 0:
-            val = atoi(tok);
-            if (val > 0)
+            val = strtol(tok, NULL, 10);
+            if (val > 0 && val <= INT_MAX)
                 env->num_items = val;
             break;
         case 1:
-            val = atoi(tok);
+            val = strtol(tok, NULL, 10);
             if (val > 0 && val < env->max_cores)
                 env->max_cores = val;
             break;
@@ -253,16 +271,18 @@ static struct armas_ac_env env = {
     .options = 0,
 };
 
+static void init_env()
+{
+    armas_ac_read_env(&env);
+}
+
 /**
  * @brief Get accelerator environment.
  */
 struct armas_ac_env *armas_ac_getenv()
 {
-    static int initialized = 0;
-    if (!initialized) {
-        armas_ac_read_env(&env);
-        initialized = 1;
-    }
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+    pthread_once(&once, init_env);
     return &env;
 }
 //! @}
-- 
2.43.0


From c46f08bc9cf372d45557cf44c5db5208e32c636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 228/245] fix: workers accelerator: worker threads were not
 pinned to configured CPUs

---
 src/workers/workers.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 0d1f3d1..4cc6395 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -279,6 +279,7 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     sc->workers = (struct armas_ac_worker *)&buf[sizeof(struct armas_ac_sched_workers)];
     sc->nworker = env->max_cores;
     sc->options = env->options;
+    sc->cpus = env->cpus;
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-- 
2.43.0


From 071729eace2e7ea1f7c0256edcd186a66b3660b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 229/245] fix: documented order of ARMAS_CONFIG fields

---
 docs/environment.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/environment.md b/docs/environment.md
index 45c7e11..b4b2cf1 100644
--- a/docs/environment.md
+++ b/docs/environment.md
@@ -3,10 +3,10 @@
 
 Following environment variables can be used to configure aspects of execution
 
-* ARMAS_CONFIG = mb,kb,nb,lb,b1min,b2min,fixed
+* ARMAS_CONFIG = mb,nb,kb,lb,b1min,b2min,fixed
 
     Defines the blocking configuration of the library functions. First three values
-    (*mb*, *kb*, *nb*) define the matrix kernel intermediate block size. These values are
+    (*mb*, *nb*, *kb*) define the matrix kernel intermediate block size. These values are
     relative values and final sizes are computed based on *memsize* value defined
     in *ARMAS_CACHE* variable or the memory block size of per call intermediate memory.
 
@@ -15,7 +15,7 @@ Following environment variables can be used to configure aspects of execution
     The values of *b1min* and *b2min* the blocking size for BLAS level1 and BLAS level2
     recursive implementations.
 
-    The *fixed* is boolean indicating that (mb,kb,nb) triplet values are absolute
+    The *fixed* is boolean indicating that (mb,nb,kb) triplet values are absolute
     values. It is responsibility of the caller to ensure that provided intermediate
     memory if large enough.
 
-- 
2.43.0


From 11eb2cd5f6c576004be5afe495376b703e030acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 230/245] fix: ldlfactor: workspace size calculation overflowed
 with large blocking size

---
 src/lapack/ldl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/ldl.h b/src/lapack/ldl.h
index 4145114..8da99d6 100644
--- a/src/lapack/ldl.h
+++ b/src/lapack/ldl.h
@@ -33,7 +33,7 @@
 static inline
 int ws_calculate(int rows, int lb)
 {
-    return lb > 0 ? (rows - lb) * lb : 0;
+    return lb > 0 && lb < rows ? (rows - lb) * lb : 0;
 }
 
 static inline
-- 
2.43.0


From 40dc6291596a141a961a8ce62090b4d72e61e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 231/245] fix: block reflector wrong when last reflector of
 square matrix is not identity

---
 src/lapack/lq.c  | 4 ++--
 src/lapack/ql.c  | 4 ++--
 src/lapack/qr.c  | 4 ++--
 src/lapack/qrt.c | 4 ++--
 src/lapack/rq.c  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8cdcdb7..38d1d0c 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -269,8 +269,8 @@ int armas_unblk_lq_reflector(armas_dense_t * T, armas_dense_t * A,
         if (tauval != 0.0) {
             armas_set(&t11, 0, 0, tauval);
             // t01 := -tauval*(a01.T + &A02.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a01, conf);
-            armas_mvmult(-tauval, &t01, -tauval, &A02, &a12, ARMAS_NONE,
+            armas_axpby(ZERO, &t01, -tauval, &a01, conf);
+            armas_mvmult(ONE, &t01, -tauval, &A02, &a12, ARMAS_NONE,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 09d3015..8f28bfd 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -312,8 +312,8 @@ int armas_unblk_ql_reflector(armas_dense_t * T, armas_dense_t * A,
         if (tauval != ZERO) {
             armas_set(&t11, 0, 0, tauval);
             // t21 := -tauval*(a12.T + &A02.T*a01)
-            armas_axpby(ZERO, &t21, ONE, &a12, conf);
-            armas_mvmult(-tauval, &t21, -tauval, &A02, &a01, ARMAS_TRANSA,
+            armas_axpby(ZERO, &t21, -tauval, &a12, conf);
+            armas_mvmult(ONE, &t21, -tauval, &A02, &a01, ARMAS_TRANSA,
                            conf);
             // t21 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index 965fad5..a395c4f 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -295,8 +295,8 @@ int armas_unblk_qr_reflector(armas_dense_t * T, armas_dense_t * A,
         if (tauval != 0.0) {
             armas_set(&t11, 0, 0, tauval);
             // t01 := -tauval*(a10.T + &A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a10, conf);
-            armas_mvmult(-tauval, &t01, -tauval, &A20, &a21, ARMAS_TRANSA,
+            armas_axpby(ZERO, &t01, -tauval, &a10, conf);
+            armas_mvmult(ONE, &t01, -tauval, &A20, &a21, ARMAS_TRANSA,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 22edf54..d43d9cf 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -68,8 +68,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a10, conf);
-            armas_mvmult(-tauval, &t01,
+            armas_axpby(ZERO, &t01, -tauval, &a10, conf);
+            armas_mvmult(ONE, &t01,
                            -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index b46ba8b..5dc3e4b 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -313,8 +313,8 @@ int armas_unblk_rq_reflector(armas_dense_t * T, armas_dense_t * A,
         if (tauval != 0.0) {
             armas_set(&t11, 0, 0, tauval);
             // t21 := -tauval*(a21 + &A20*a10)
-            armas_axpby(ZERO, &t21, ONE, &a21, conf);
-            armas_mvmult(-tauval, &t21, -tauval, &A20, &a10, ARMAS_NONE,
+            armas_axpby(ZERO, &t21, -tauval, &a21, conf);
+            armas_mvmult(ONE, &t21, -tauval, &A20, &a10, ARMAS_NONE,
                            conf);
             // t01 := T22*t21
             armas_mvmult_trm(&t21, ONE, &T22, ARMAS_LOWER, conf);
-- 
2.43.0


From 00f68441929da9665084d52d176130d2cba3a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 232/245] fix: svd of 1-by-1 matrix wrong with non-negative
 householder option

---
 src/lapack/svd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index e444aef..4e274f4 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -98,9 +98,9 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                 if (V->rows == A->rows) {
                     armas_copy(V, A, conf);
                     armas_lqbuild_w(V, &tau, M, wb, conf);
-                    // no reflector in 1-by-1 matrix to hold the sign
-                    if (N == 1 && armas_get_unsafe(A, 0, 0) < ZERO)
-                        armas_set_unsafe(V, 0, 0, -ONE);
+                    // reflector of 1-by-1 matrix, if any, is in U
+                    if (N == 1)
+                        armas_set_unsafe(V, 0, 0, armas_get_unsafe(A, 0, 0) < ZERO ? -ONE : ONE);
                 } else {
                     // V is N-by-N
                     armas_set_values(V, zeros, ARMAS_SYMM | ARMAS_UNIT);
-- 
2.43.0


From 2e6e53d106e2518e3734263e99701bcc830fcf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:26 +0000
Subject: [PATCH 233/245] fix: iamin ignored element distance of row vector

---
 src/blas/iamax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/iamax.c b/src/blas/iamax.c
index dd639b3..0403ddf 100644
--- a/src/blas/iamax.c
+++ b/src/blas/iamax.c
@@ -126,9 +126,9 @@ int vec_iamin2(const armas_dense_t *X,  int N)
 
     xinc = X->rows == 1 ? X->step : 1;
     ep = X->elems;
-    min = ABS(*ep++);
+    min = ABS(*ep);
     ix = 0;
-    for (i = 1; i < N; ++i, ep += xinc) {
+    for (i = 1, ep += xinc; i < N; ++i, ep += xinc) {
         c0 = ABS(*ep);
         if (c0 < min) {
             ix = i;
-- 
2.43.0


From e4b20e1ec60c524cc270d85e9122b7887f0108b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 234/245] fix: matrix printed to standard output instead of
 given stream

---
 src/base/matrix.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 314a325..fe9d211 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -179,20 +179,20 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
     int rowpartial = m->rows > 18;
     int colpartial = m->cols > 9;
     for (i = 0; i < m->rows; i++ ) {
-        printf("[");
+        fprintf(out, "[");
         for (j = 0; j < m->cols; j++ ) {
             if (j > 0) {
-                printf(", ");
+                fprintf(out, ", ");
             }
-            printf(efmt, m->elems[j*m->step+i]);
+            fprintf(out, efmt, m->elems[j*m->step+i]);
             if (colpartial && j == 3) {
                 j = m->cols - 5;
-                printf(", ...");
+                fprintf(out, ", ...");
             }
         }
-        printf("]\n");
+        fprintf(out, "]\n");
         if (rowpartial && i == 8) {
-            printf(" ....\n");
+            fprintf(out, " ....\n");
             i = m->rows - 10;
         }
     }
-- 
2.43.0


From e9c825862a1477b9d097deb703adaccded0641ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 235/245] fix: default element format of print lacks conversion

---
 src/base/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index fe9d211..9f03499 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -200,6 +200,6 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
 
 void armas_print(const armas_dense_t *m, FILE *out)
 {
-    armas_printf(out, "%8.1", m);
+    armas_printf(out, "%8.1e", m);
 }
 
-- 
2.43.0


From 1b612646072bf551e8440af530388ca573e98cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 236/245] fix: memory exhaustion in accelerator threads lost or
 crashing

---
 src/threaded/gemm.c | 6 +++---
 src/threaded/symm.c | 6 +++---
 src/threaded/trmm.c | 6 +++---
 src/threaded/trsm.c | 6 +++---
 src/workers/gemm.c  | 5 +++--
 5 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index b1789ee..86cd5c5 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -62,14 +62,14 @@ void *compute_block(void *argptr)
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
     }
     cache_t cache;
-    struct armas_cbuf *cbuf = armas_cbuf_get_thread_global();
-    if (!cbuf) {
+    armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
+    if (armas_cbuf_select(&cbuf, (armas_conf_t *)0) < 0) {
         args->error = ARMAS_EMEMORY;
         return (void *)0;
     }
 
     armas_env_t *env = armas_getenv();
-    armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
+    armas_cache_setup2(&cache, &cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index 0a0937b..f51a6fc 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -67,15 +67,15 @@ void *compute_block(void *argptr)
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
         break;
     }
-    armas_cbuf_t *cbuf = armas_cbuf_get_thread_global();
-    if (!cbuf) {
+    armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
+    if (armas_cbuf_select(&cbuf, (armas_conf_t *)0) < 0) {
         args->error = ARMAS_EMEMORY;
         return (void *)0;
     }
 
     cache_t cache;
     armas_env_t *env = armas_getenv();
-    armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
+    armas_cache_setup2(&cache, &cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
     armas_mult_sym_unsafe(
         blas->beta, &C, blas->alpha, blas->A, &B, blas->flags, 0, &cache);
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 8cbd668..482931d 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -53,15 +53,15 @@ void *compute_block(void *argptr)
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
         break;
     }
-    armas_cbuf_t *cbuf = armas_cbuf_get_thread_global();
-    if (!cbuf) {
+    armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
+    if (armas_cbuf_select(&cbuf, (armas_conf_t *)0) < 0) {
         args->error = ARMAS_EMEMORY;
         return (void *)0;
     }
 
     cache_t cache;
     armas_env_t *env = armas_getenv();
-    armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
+    armas_cache_setup2(&cache, &cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
     armas_mult_trm_unsafe(&B, blas->alpha, blas->A, blas->flags, &cache);
 
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index eb11679..18b9d24 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -50,15 +50,15 @@ void *compute_block(void *argptr)
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
         break;
     }
-    armas_cbuf_t *cbuf = armas_cbuf_get_thread_global();
-    if (!cbuf) {
+    armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
+    if (armas_cbuf_select(&cbuf, (armas_conf_t *)0) < 0) {
         args->error = ARMAS_EMEMORY;
         return (void *)0;
     }
 
     cache_t cache;
     armas_env_t *env = armas_getenv();
-    armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
+    armas_cache_setup2(&cache, &cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
     armas_solve_trm_unsafe(
         &B, blas->alpha, blas->A, blas->flags, &cache);
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index a4931a5..f0eee6a 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -65,9 +65,10 @@ void *compute_block(void *argptr)
             &B, blas->B, 0, args->column, blas->B->rows, args->ncolumns);
     }
     cache_t cache;
-    struct armas_cbuf *cbuf = armas_cbuf_create_thread_global();
+    armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
+    armas_cbuf_select(&cbuf, (armas_conf_t *)0);
     armas_env_t *env = armas_getenv();
-    armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
+    armas_cache_setup2(&cache, &cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
-- 
2.43.0


From 3afe86da297176289485f4d04b6f8397b3d367e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 237/245] fix: threaded operation fails halfway when thread
 cannot be started

---
 src/threaded/gemm.c | 6 ++++--
 src/threaded/symm.c | 6 ++++--
 src/threaded/trmm.c | 6 ++++--
 src/threaded/trsm.c | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 86cd5c5..8c2f6ac 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -120,8 +120,10 @@ int threaded_mult_recursive(
     //printf("create thread %d\n", thread);
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute block here. */
+        args.is_last = 1;
+        compute_block(&args);
+        return threaded_mult_recursive(thread+1, nthreads, blas, cf);
     }
     err = threaded_mult_recursive(thread+1, nthreads, blas, cf);
 
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index f51a6fc..9c5f1c9 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -124,8 +124,10 @@ int threaded_mult_sym_recursive(
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute block here. */
+        args.is_last = 1;
+        compute_block(&args);
+        return threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
     }
 
     err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 482931d..168f1ca 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -106,8 +106,10 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute block here. */
+        args.is_last = 1;
+        compute_block(&args);
+        return threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
     }
     err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
 
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index 18b9d24..94e7dd6 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -106,8 +106,10 @@ int threaded_solve_trm_recursive(
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute block here. */
+        args.is_last = 1;
+        compute_block(&args);
+        return threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
     }
     err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
 
-- 
2.43.0


From 4fee0b87ddf960a4fd02f1fd620cf55ab0ea20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 238/245] fix: failed allocation of worker queue not noticed

---
 src/workers/workers.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 4cc6395..9f2083c 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -62,12 +62,13 @@ typedef struct armas_ac_sched_workers {
 } armas_scheduler_t;
 
 static inline
-void worker_init(
+int worker_init(
     armas_ac_worker_t *W, unsigned long id, unsigned int sz, struct armas_ac_sched_workers *sched)
 {
     W->id = id;
     W->cpuid = -1;
-    taskq_init(&W->inqueue, sz);
+    if (taskq_init(&W->inqueue, sz) < 0)
+        return -1;
     W->running = 0;
     W->tid = 0;
     W->nsched = 0;
@@ -75,6 +76,7 @@ void worker_init(
     W->sched = (struct armas_ac_scheduler *)sched;
     W->cmem = 0;
     W->l1mem = 0;
+    return 0;
 }
 
 static
@@ -283,7 +285,12 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     last_cpu = -1;
 
     for (int i = 0; i < sc->nworker; i++) {
-        worker_init(&sc->workers[i], i+1, qlen, sc);
+        if (worker_init(&sc->workers[i], i+1, qlen, sc) < 0) {
+            for (int k = 0; k < i; k++)
+                taskq_release(&sc->workers[k].inqueue);
+            free(sc);
+            return -ARMAS_EMEMORY;
+        }
         // pick up next cpu from list available cpus
         last_cpu = next_cpu_in_set(&sc->cpus, last_cpu);
         sc->workers[i].cpuid = last_cpu;
-- 
2.43.0


From a88eda39179e494ecba77ae0c06d9b535860d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 239/245] fix: operand sizes of reflector application not
 checked

---
 src/lapack/hhouse.c | 10 ++++++++++
 src/lapack/house.c  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index ec43352..ef02258 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -221,6 +221,7 @@ int armas_hhouse_apply(armas_dense_t * tau, armas_dense_t * v,
                          armas_dense_t * a1, armas_dense_t * A2,
                          armas_dense_t * w, int flags, armas_conf_t * cf)
 {
+    int ok;
     DTYPE tval;
     armas_dense_t w1;
 
@@ -230,6 +231,15 @@ int armas_hhouse_apply(armas_dense_t * tau, armas_dense_t * v,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // A2 must conform to a1 and reflector v
+    if (flags & ARMAS_LEFT)
+        ok = A2->rows == armas_size(v) && A2->cols == armas_size(a1);
+    else
+        ok = A2->cols == armas_size(v) && A2->rows == armas_size(a1);
+    if (!ok && armas_size(v) > 0) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     armas_make(&w1, armas_size(a1), 1, armas_size(a1), armas_data(w));
 
     tval = armas_get(tau, 0, 0);
diff --git a/src/lapack/house.c b/src/lapack/house.c
index f63b834..53ff538 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -498,6 +498,7 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
                           armas_dense_t * tau, armas_dense_t * v,
                           armas_dense_t * w, int flags, armas_conf_t * cf)
 {
+    int ok;
     armas_dense_t w1;
     if (!cf)
         cf = armas_conf_default();
@@ -505,6 +506,15 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
         cf->error = ARMAS_ESIZE;
         return -1;
     }
+    // A2 must conform to a1 and reflector v
+    if (flags & ARMAS_LEFT)
+        ok = A2->rows == armas_size(v) && A2->cols == armas_size(a1);
+    else
+        ok = A2->cols == armas_size(v) && A2->rows == armas_size(a1);
+    if (!ok && armas_size(v) > 0) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     armas_make(&w1, armas_size(a1), 1, armas_size(a1), armas_data(w));
     return armas_apply_householder2x1(tau, v, a1, A2, &w1, flags, cf);
 }
-- 
2.43.0


From e889c3dd241453e425d17b3751725ad25f01716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 240/245] fix: result sizes of secular equation solver not
 checked

---
 src/lapack/trdsec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 808d1e3..7dd7843 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -672,7 +672,9 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         conf = armas_conf_default();
 
     if (armas_size(v) != armas_size(z)
-        || armas_size(v) != armas_size(d)) {
+        || armas_size(v) != armas_size(d)
+        || armas_size(y) != armas_size(d)
+        || Qd->rows != armas_size(d) || Qd->cols != armas_size(d)) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-- 
2.43.0


From f00996a70e77feeab80dd3e93ee6935fb36e71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 241/245] fix: length of tau not checked in block reflector
 computation

---
 src/lapack/lq.c | 4 ++++
 src/lapack/ql.c | 4 ++++
 src/lapack/qr.c | 4 ++++
 src/lapack/rq.c | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 38d1d0c..1c388a9 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -318,6 +318,10 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (!armas_isvector(tau) || armas_size(tau) < A->rows) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     armas_unblk_lq_reflector(T, A, tau, conf);
     return 0;
 }
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 8f28bfd..569b394 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -361,6 +361,10 @@ int armas_qlreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     armas_unblk_ql_reflector(T, A, tau, conf);
     return 0;
 }
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index a395c4f..0b2fd5f 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -344,6 +344,10 @@ int armas_qrreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -1;
     }
+    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     armas_unblk_qr_reflector(T, A, tau, conf);
     return 0;
 }
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 5dc3e4b..c79dda6 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -356,6 +356,10 @@ int armas_rqreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -1;
     }
+    if (!armas_isvector(tau) || armas_size(tau) < A->rows) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     armas_unblk_rq_reflector(T, A, tau, conf);
     return 0;
 }
-- 
2.43.0


From cec929adbbb4ede888720395f3f59dffedc668dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:00 +0000
Subject: [PATCH 242/245] fix: absent result of extended precision dot product
 not rejected

---
 src/eblas/dot_ext.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ffac388..93b638e 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -186,6 +186,10 @@ int armas_ext_adot(
         cf->error = ARMAS_ESIZE;
         return -1;
     }
+    if (!result) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     s = u = ZERO;
     armas_ext_adot_unsafe(&s, &u, alpha, x, y);
     *result = s + u;
-- 
2.43.0


From 191535336eec08aea3445087d70fa9164fa4623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:26 +0000
Subject: [PATCH 243/245] fix: LU factorization applies pivots beyond those it
 computed

---
 src/lapack/lu.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index a951899..12baf70 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -301,6 +301,7 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
 int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
                      armas_conf_t * cf)
 {
+    armas_pivot_t P0;
     int err = 0;
     if (!cf)
         cf = armas_conf_default();
@@ -309,6 +310,12 @@ int armas_lufactor(armas_dense_t * A, armas_pivot_t * P,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // P may have room for more pivots than there are
+    if (P) {
+        armas_pivot_make(
+            &P0, A->rows < A->cols ? A->rows : A->cols, armas_pivot_data(P));
+        P = &P0;
+    }
 
     armas_env_t *env = armas_getenv();
     if (env->lb == 0 || A->cols <= env->lb || A->rows <= env->lb) {
-- 
2.43.0


From eeb254a42dd02acfad5543dce39d298a1d49edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:36 +0000
Subject: [PATCH 244/245] fix: row vector accepted as tau, wrong result

---
 src/lapack/bibld.c   | 2 +-
 src/lapack/bired.c   | 2 +-
 src/lapack/biredm.c  | 2 +-
 src/lapack/hess.c    | 2 +-
 src/lapack/hessm.c   | 2 +-
 src/lapack/housem.c  | 2 +-
 src/lapack/lq.c      | 4 ++--
 src/lapack/lqbld.c   | 2 +-
 src/lapack/lqmult.c  | 2 +-
 src/lapack/lqsolve.c | 2 +-
 src/lapack/ql.c      | 4 ++--
 src/lapack/qlbld.c   | 2 +-
 src/lapack/qlmult.c  | 2 +-
 src/lapack/qr.c      | 4 ++--
 src/lapack/qrbld.c   | 2 +-
 src/lapack/qrmult.c  | 2 +-
 src/lapack/qrsolve.c | 2 +-
 src/lapack/rq.c      | 4 ++--
 src/lapack/rqbld.c   | 2 +-
 src/lapack/rqmult.c  | 2 +-
 src/lapack/tribld.c  | 2 +-
 src/lapack/trired.c  | 2 +-
 src/lapack/triredm.c | 2 +-
 23 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index df48e8d..dcd3c9b 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -132,7 +132,7 @@ int armas_bdbuild_w(armas_dense_t * A,
     int nt = tall
         ? ((flags & ARMAS_WANTQ) ? A->cols : A->cols - 1)
         : ((flags & ARMAS_WANTQ) ? A->rows - 1 : A->rows);
-    if (armas_size(tau) < nt) {
+    if (tau->cols > 1 || armas_size(tau) < nt) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 6a164ce..08d1399 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -948,7 +948,7 @@ int armas_bdreduce_w(armas_dense_t * A,
     // number of reflectors in Q and P
     int nq = A->rows >= A->cols ? A->cols : A->rows - 1;
     int np = A->rows >= A->cols ? A->cols - 1 : A->rows;
-    if (armas_size(tauq) < nq || armas_size(taup) < np) {
+    if (tauq->cols > 1 || taup->cols > 1 || armas_size(tauq) < nq || armas_size(taup) < np) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 5d88ca1..8fa8037 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -163,7 +163,7 @@ int armas_bdmult_w(armas_dense_t * C,
     int nt = tall
         ? ((flags & ARMAS_MULTQ) ? A->cols : A->cols - 1)
         : ((flags & ARMAS_MULTQ) ? A->rows - 1 : A->rows);
-    if (armas_size(tau) < nt) {
+    if (tau->cols > 1 || armas_size(tau) < nt) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index 1163b66..383ab5a 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -519,7 +519,7 @@ int armas_hessreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) != A->rows - 1) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) != A->rows - 1) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index 51e0e52..6701630 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -119,7 +119,7 @@ int armas_hessmult_w(armas_dense_t * C,
         return -1;
     }
 
-    if (!A || !tau || armas_size(tau) < A->rows - 1) {
+    if (!A || !tau || tau->cols > 1 || armas_size(tau) < A->rows - 1) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 6116e80..3af54ef 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -331,7 +331,7 @@ int armas_housemult_w(armas_dense_t * X,
     // check parameter sizes;
     if (flags & ARMAS_UNIT) {
         // this is unit scaled reflector; tau is needed
-        if (armas_size(tau) != Q->cols) {
+        if (tau->cols > 1 || armas_size(tau) != Q->cols) {
             cf->error = ARMAS_ESIZE;
             return -1;
         }
diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 1c388a9..ffd17d8 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -318,7 +318,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->rows) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->rows) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -428,7 +428,7 @@ int armas_lqfactor_w(armas_dense_t * A,
         return 0;
     }
 
-    if (!armas_isvector(tau) || A->rows > armas_size(tau)) {
+    if (!armas_isvector(tau) || tau->cols > 1 || A->rows > armas_size(tau)) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index dc84937..3892c86 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -283,7 +283,7 @@ int armas_lqbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
-    if (K > armas_size(tau)) {
+    if (tau->cols > 1 || K > armas_size(tau)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/lqmult.c b/src/lapack/lqmult.c
index 3cb25a4..d06e85d 100644
--- a/src/lapack/lqmult.c
+++ b/src/lapack/lqmult.c
@@ -487,7 +487,7 @@ int armas_lqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index dab0e7b..48b58bf 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -132,7 +132,7 @@ int armas_lqsolve_w(armas_dense_t * B,
     }
 
     if (B->rows != A->cols || A->rows > A->cols ||
-        armas_size(tau) != A->rows) {
+        tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 569b394..9cf643b 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -361,7 +361,7 @@ int armas_qlreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -477,7 +477,7 @@ int armas_qlfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 8481f41..3e368d6 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -277,7 +277,7 @@ int armas_qlbuild_w(armas_dense_t * A,
         return 0;
     }
 
-    if (K > armas_size(tau)) {
+    if (tau->cols > 1 || K > armas_size(tau)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qlmult.c b/src/lapack/qlmult.c
index 8839412..0984236 100644
--- a/src/lapack/qlmult.c
+++ b/src/lapack/qlmult.c
@@ -447,7 +447,7 @@ int armas_qlmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index 0b2fd5f..b3dbe88 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -344,7 +344,7 @@ int armas_qrreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -464,7 +464,7 @@ int armas_qrfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index fb5e642..42a4289 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -301,7 +301,7 @@ int armas_qrbuild_w(armas_dense_t * A,
         return -ARMAS_EINVAL;
     }
 
-    if (K > armas_size(tau)) {
+    if (tau->cols > 1 || K > armas_size(tau)) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrmult.c b/src/lapack/qrmult.c
index 2fea3f7..45cd495 100644
--- a/src/lapack/qrmult.c
+++ b/src/lapack/qrmult.c
@@ -487,7 +487,7 @@ int armas_qrmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index 1811455..755ef1f 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -121,7 +121,7 @@ int armas_qrsolve_w(armas_dense_t * B,
     }
 
     if (B->rows != A->rows || A->rows < A->cols ||
-        armas_size(tau) != A->cols) {
+        tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index c79dda6..ef0d015 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -356,7 +356,7 @@ int armas_rqreflector(armas_dense_t * T, armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->rows) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->rows) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -465,7 +465,7 @@ int armas_rqfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) != A->rows) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3b83b90..9ce90cf 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -265,7 +265,7 @@ int armas_rqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (armas_size(tau) != A->rows) {
+    if (tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/rqmult.c b/src/lapack/rqmult.c
index f7d8656..0b120bd 100644
--- a/src/lapack/rqmult.c
+++ b/src/lapack/rqmult.c
@@ -479,7 +479,7 @@ int armas_rqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index be11a3c..4b2e8cd 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -108,7 +108,7 @@ int armas_trdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
-    if (!tau || armas_size(tau) != A->cols) {
+    if (!tau || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index 2fbd0f2..4f4628b 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || tauq->cols > 1 || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/triredm.c b/src/lapack/triredm.c
index c7bc69a..093f097 100644
--- a/src/lapack/triredm.c
+++ b/src/lapack/triredm.c
@@ -108,7 +108,7 @@ int armas_trdmult_w(armas_dense_t * C,
         return err;
     }
 
-    if (!A || !tau || armas_size(tau) != A->cols) {
+    if (!A || !tau || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
-- 
2.43.0


From 72f1bcc8c9f365b840f377971d78528fac0d6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:51 +0000
Subject: [PATCH 245/245] fix: error code of singular value decomposition
 without workspace

---
 src/lapack/svd.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 4e274f4..7aef861 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -489,10 +489,8 @@ int armas_svd(armas_dense_t * S, armas_dense_t * U, armas_dense_t * V,
     if (!conf)
         conf = armas_conf_default();
 
-    if ((err = armas_svd_w(S, U, V, A, flags, &wb, conf)) < 0) {
-        conf->error = ARMAS_EWORK;
+    if ((err = armas_svd_w(S, U, V, A, flags, &wb, conf)) < 0)
         return err;
-    }
     if (wb.bytes > 0 && wb.bytes <= ARMAS_MAX_ONSTACK_WSPACE) {
         char b[ARMAS_MAX_ONSTACK_WSPACE];
         armas_wbuf_t wbt = (armas_wbuf_t) {
-- 
2.43.0

