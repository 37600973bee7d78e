From 170c9c3b3b6c35734d44982461df81de2f2cd9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:55 +0000
Subject: [PATCH 01/62] sim: let a simulation build supply the parallel tuning
 thresholds (guard __FFLASFFPACK_SIMULATION, off by default)

---
 fflas-ffpack/fflas/fflas_pfgemm.inl | 5 +++++
 fflas-ffpack/fflas/fflas_pftrsm.inl | 4 ++++
 fflas-ffpack/ffpack/ffpack.h        | 5 +++++
 fflas-ffpack/paladin/blockcuts.inl  | 4 ++++
 4 files changed, 18 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_pfgemm.inl b/fflas-ffpack/fflas/fflas_pfgemm.inl
index f34d204..12d9e09 100644
--- a/fflas-ffpack/fflas/fflas_pfgemm.inl
+++ b/fflas-ffpack/fflas/fflas_pfgemm.inl
@@ -27,8 +27,13 @@
 #ifndef __FFLASFFPACK_fflas_pfgemm_INL
 #define __FFLASFFPACK_fflas_pfgemm_INL
 
+#ifdef __FFLASFFPACK_SIMULATION // tuning knobs supplied by the simulator
+#define __FFLASFFPACK_SEQPARTHRESHOLD __FFLASFFPACK_SIM_SEQPARTHRESHOLD
+#define __FFLASFFPACK_DIMKPENALTY __FFLASFFPACK_SIM_DIMKPENALTY
+#else
 #define __FFLASFFPACK_SEQPARTHRESHOLD 220
 #define __FFLASFFPACK_DIMKPENALTY 1
+#endif
 
 #ifdef __FFLASFFPACK_USE_KAAPI
 #include <kaapi++>
diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index 8b8d2fd..eba06ba 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -28,7 +28,11 @@
 #ifndef __FFLASFFPACK_fflas_pftrsm_INL
 #define __FFLASFFPACK_fflas_pftrsm_INL
 
+#ifdef __FFLASFFPACK_SIMULATION // tuning knob supplied by the simulator
+#define PTRSM_HYBRID_THRESHOLD __FFLASFFPACK_SIM_PTRSM_HYBRID_THRESHOLD
+#else
 #define PTRSM_HYBRID_THRESHOLD 256
+#endif
 
 #include "fflas-ffpack/paladin/parallel.h"
 
diff --git a/fflas-ffpack/ffpack/ffpack.h b/fflas-ffpack/ffpack/ffpack.h
index 4f66587..a16c09a 100755
--- a/fflas-ffpack/ffpack/ffpack.h
+++ b/fflas-ffpack/ffpack/ffpack.h
@@ -51,8 +51,13 @@
 #include <iostream> // std::cout
 #include <algorithm>
 
+#ifdef __FFLASFFPACK_SIMULATION // tuning knobs supplied by the simulator
+#define  __FFLASFFPACK_FTRSTR_THRESHOLD __FFLASFFPACK_SIM_FTRSTR_THRESHOLD
+#define  __FFLASFFPACK_FTRSSYR2K_THRESHOLD __FFLASFFPACK_SIM_FTRSSYR2K_THRESHOLD
+#else
 #define  __FFLASFFPACK_FTRSTR_THRESHOLD 64
 #define  __FFLASFFPACK_FTRSSYR2K_THRESHOLD 64
+#endif
 
 /** @brief <b>F</b>inite <b>F</b>ield <b>PACK</b>
  * Set of elimination based routines for dense linear algebra.
diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..a27b552 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -31,7 +31,11 @@
 #include <math.h>
 #include <cassert>
 
+#ifdef __FFLASFFPACK_SIMULATION // tuning knob supplied by the simulator
+#define __FFLASFFPACK_MINBLOCKCUTS __FFLASFFPACK_SIM_MINBLOCKCUTS
+#else
 #define __FFLASFFPACK_MINBLOCKCUTS ((size_t)256)
+#endif
 
 namespace FFLAS {
     namespace CuttingStrategy{
-- 
2.43.0


From e96335ab81e6e536399e3ee9d51248d0acc6a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:59 +0000
Subject: [PATCH 02/62] fix: ThreeDAdaptive pfgemm adds the k-split partial
 product with its rows and columns swapped

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 224bf34..3615195 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -149,7 +149,7 @@ namespace FFLAS
                         TASK(MODE(CONSTREFERENCE(F,H2) READ(A2,B2) READWRITE(C2)), pfgemm(F, ta, tb, m, n, k-K2, a, A2, lda, B2, ldb, F.zero, C2, n, H2));
                         CHECK_DEPENDENCIES;
 
-                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, n, m, C2, n, C, ldc));
+                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, m, n, C2, n, C, ldc));
 
                        );
             fflas_delete(C2);
-- 
2.43.0


From 48cdbdedaecc96610757c510ec75c3b9478a7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:10 +0000
Subject: [PATCH 03/62] fix: Block pfgemm tasks share one mutable helper (data
 race)

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 3615195..17e2a77 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -45,7 +45,8 @@ namespace FFLAS
         {
             H.parseq.set_numthreads( std::min(H.parseq.numthreads(), std::max((size_t)1,(size_t)(m*n/(__FFLASFFPACK_SEQPARTHRESHOLD*__FFLASFFPACK_SEQPARTHRESHOLD)))) );
 
-            MMHelper<Field, AlgoT, FieldTrait, ParSeqHelper::Sequential> SeqH (H);
+            typedef MMHelper<Field, AlgoT, FieldTrait, ParSeqHelper::Sequential> SeqH_t;
+            SeqH_t SeqH (H);
             size_t sa = (ta==FFLAS::FflasNoTrans)?lda:1;
             size_t sb = (tb==FFLAS::FflasNoTrans)?1:ldb;
             SYNCH_GROUP({FORBLOCK2D(iter,m,n,H.parseq,
@@ -53,7 +54,9 @@ namespace FFLAS
                                                READ(A[iter.ibegin()*sa],B[iter.jbegin()*sb])
                                                CONSTREFERENCE(F, SeqH)
                                                READWRITE(C[iter.ibegin()*ldc+iter.jbegin()])),
-                                          fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, SeqH););
+                                          // fgemm updates its helper: each task needs its own
+                                          SeqH_t TaskH (SeqH);
+                                          fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, TaskH););
                                    );
                         });
         }
-- 
2.43.0


From 52c28b05ec0a4a6dd9dcd7174b24434deb9ebca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:59 +0000
Subject: [PATCH 04/62] fix: three-operand ftrmm divides by alpha when alpha is
 zero

---
 fflas-ffpack/fflas/fflas_ftrmm.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm.inl b/fflas-ffpack/fflas/fflas_ftrmm.inl
index 8bc2161..da48108 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm.inl
@@ -119,6 +119,10 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc)
     {
         if (!M || !N ) return;
+        if (F.isZero(alpha)) {
+            fscalin (F, M, N, beta, C, ldc);
+            return;
+        }
         typename Field::Element bet;
         F.init(bet);
         F.assign(bet,beta);
-- 
2.43.0


From d377bee60c75e4b595207a8f07149f84f0e7343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:59 +0000
Subject: [PATCH 05/62] fix: hybrid parallel ftrsm loops for ever on an empty
 right-hand side

---
 fflas-ffpack/fflas/fflas_pftrsm.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index eba06ba..55ffab4 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -96,6 +96,7 @@ namespace FFLAS {
     // const FFLAS::CuttingStrategy method,
     // const size_t numThreads)
     {
+        if (!m || !n) return B;
 
         if(Side == FflasRight){
 
-- 
2.43.0


From 139a3aaa6c097c2c6f3cc6ff5e5f9fb14a0c8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:48 +0000
Subject: [PATCH 06/62] fix: LUdivine dispatches to LUdivine_small only when
 trans is NoTrans

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 4d3aea3..6080733 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -432,7 +432,8 @@ namespace FFPACK {
             rowDim = M;
         }
 
-        if ((rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
+        // LUdivine_small only implements the NoTrans case
+        if ((trans == FFLAS::FflasNoTrans) && (rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
             return LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
         }
         else { // recursively :
-- 
2.43.0


From 08149dd86428a1c9996ed0ce78076736a1c35abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:48 +0000
Subject: [PATCH 07/62] fix: parallel PLUQ reveals the rank profile matrix when
 a sub-block has one row or one column

---
 fflas-ffpack/ffpack/ffpack_ppluq.inl | 39 ----------------------------
 1 file changed, 39 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ppluq.inl b/fflas-ffpack/ffpack/ffpack_ppluq.inl
index 6540fab..5226ea0 100644
--- a/fflas-ffpack/ffpack/ffpack_ppluq.inl
+++ b/fflas-ffpack/ffpack/ffpack_ppluq.inl
@@ -89,45 +89,6 @@ namespace FFPACK {
         for (size_t i=0; i<N; ++i) Q[i] = i;
         if (std::min(M,N) == 0) return 0;
         if (std::max (M,N) == 1) return (Fi.isZero(*A))? 0 : 1;
-        if (M == 1){
-            size_t piv = 0;
-            while ((piv < N) && Fi.isZero (A[piv])) piv++;
-            if (piv == N)
-                return 0;
-            if (piv){
-                Q[0] = piv;
-                Fi.assign (*A, A[piv]);
-                Fi.assign (A[piv], Fi.zero);
-            }
-            if (Diag== FFLAS::FflasUnit){
-                typename Field::Element invpivot;
-                Fi.inv(invpivot, *A);
-                // for (size_t i=piv+1; i<N; ++i)
-                // Fi.mulin (A[i], invpivot);
-                FFLAS::fscalin(Fi,N-piv-1,invpivot,A+piv+1,1);
-            }
-            return 1;
-        }
-        if (N == 1){
-            size_t piv = 0;
-            while ((piv < M) && Fi.isZero (A[piv*lda])) piv++;
-            if (piv == M)
-                return 0;
-            if (piv){
-                P[0] = piv;
-                Fi.assign (*A, *(A+piv*lda));
-                Fi.assign (*(A+piv*lda), Fi.zero);
-            }
-            if (Diag== FFLAS::FflasNonUnit){
-                typename Field::Element invpivot;
-                Fi.inv(invpivot, *A);
-                // for (size_t i=piv+1; i<M; ++i)
-                // Fi.mulin (*(A+i*lda), invpivot);
-                FFLAS::fscalin(Fi,M-piv-1,invpivot,A+(piv+1)*lda,lda);
-            }
-            return 1;
-        }
-
 #ifdef __FFLASFFPACK_PLUQ_THRESHOLD
         if (std::min(M,N) < __FFLASFFPACK_PLUQ_THRESHOLD)
             return PLUQ_basecaseCrout (Fi, Diag, M, N, A, lda, P, Q);
-- 
2.43.0


From 175967641e8ce0ecb31ac3bd0d70c852abe1c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:51 +0000
Subject: [PATCH 08/62] fix: fgemv over word-size integer fields of cardinality
 2 converts instead of failing

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..a9665ec 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -35,7 +35,7 @@
 #endif
 
 namespace FFLAS{ namespace Protected {
-    template <typename FloatElement, class Field>
+    template <class NewField, class Field>
     inline typename Field::Element_ptr
     fgemv_convert (const Field& F,
                    const FFLAS_TRANSPOSE ta,
@@ -48,7 +48,8 @@ namespace FFLAS{ namespace Protected {
     {
         FFLASFFPACK_check(lda);
 
-        Givaro::ModularBalanced<FloatElement> G((FloatElement) F.characteristic());
+        typedef typename NewField::Element FloatElement;
+        NewField G((FloatElement) F.characteristic());
         FloatElement tmp,alphaf, betaf;
         F.convert (tmp, beta);
         G.init(betaf,tmp);
@@ -96,10 +97,12 @@ namespace FFLAS {
            typename Field::Element_ptr Y, const size_t incY,
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::ConvertTo<ElementCategories::MachineFloatTag> > & H)
     {
-        if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2)
-            return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
-        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality() > 2)
-            return Protected::fgemv_convert<double,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
+        if (F.cardinality() == 2)
+            return Protected::fgemv_convert<Givaro::Modular<float>,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
+        else if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER)
+            return Protected::fgemv_convert<Givaro::ModularBalanced<float>,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
+        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality())
+            return Protected::fgemv_convert<Givaro::ModularBalanced<double>,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
         else {
             FFPACK::failure()(__func__,__LINE__,"Invalid ConvertTo Mode for this field");
         }
@@ -145,13 +148,13 @@ namespace FFLAS {
             Protected::AreEqual<Field, Givaro::ModularBalanced<double> >::value){
             //Givaro::Modular<double> need to switch to float if p too small
             if (F.characteristic() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2)
-                return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY);
+                return Protected::fgemv_convert<Givaro::ModularBalanced<float>,Field>(F,ta,M,N,alpha,A,lda,X,incX,beta,Y,incY);
         }
 
         if (Protected::AreEqual<Field, Givaro::Modular<int64_t> >::value ||
             Protected::AreEqual<Field, Givaro::ModularBalanced<int64_t> >::value){
             if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality()>2)
-                return Protected::fgemv_convert<double,Field>(F,ta,M,N,alpha,A,lda,X, incX,beta,Y,incY);
+                return Protected::fgemv_convert<Givaro::ModularBalanced<double>,Field>(F,ta,M,N,alpha,A,lda,X, incX,beta,Y,incY);
             else{
                 // Stay over int64_t
                 MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::LazyTag, ParSeqHelper::Sequential> HG(H);
-- 
2.43.0


From c1954c119fb20b30b8c60e14b49c89ce16ebfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:11 +0000
Subject: [PATCH 09/62] fix: generic three-operand ftrmm accumulates onto C
 when beta is zero

---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..f13cb7e 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,7 +356,9 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
+            if (F.isZero(beta))
+                fzero (F, __FFLAS__Bdim, C, __FFLAS__Cnorminc);
+            else
                 fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
-- 
2.43.0


From c41c4e675a6d7340e49c664252272eff774539df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 10/62] fix: ColRankProfileSubmatrixIndices initialises all M
 row indices

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 97d5d35..8095d79 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -216,7 +216,7 @@ namespace FFPACK{
         for (size_t i=0; i<R; ++i)
             colindices [i] = Q [i];
 
-        for (size_t i=0; i<N; ++i)
+        for (size_t i=0; i<M; ++i)
             rowindices [i] = i;
 
         size_t tmp;
-- 
2.43.0


From 5b6300f0d97c4f424e4c34daf19784d75c85e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 11/62] fix: RandomNullSpaceVector honours incX when applying
 the permutation

---
 fflas-ffpack/ffpack/ffpack.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 0e4cdcc..18a00bb 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -248,7 +248,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, 1u, Q);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, incX, Q);
 
             FFLAS::fflas_delete(Q);
         }
@@ -289,7 +289,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasLower, FFLAS::FflasTrans, FFLAS::FflasUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasRight, FFLAS::FflasNoTrans, 1u, 0u, (int) M, X, 1u, P);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) M, X, incX, P);
 
             FFLAS::fflas_delete(P);
         }
-- 
2.43.0


From 2b22a8805e52c7b4a04107133bb3cfc124898729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 12/62] fix: IsSingular reports matrices whose partial
 elimination stops with a non-zero rank

---
 fflas-ffpack/ffpack/ffpack.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 18a00bb..d1225ed 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -82,7 +82,7 @@ namespace FFPACK {
 
         size_t *P = FFLAS::fflas_new<size_t>(N);
         size_t *Q = FFLAS::fflas_new<size_t>(M);
-        bool singular = !LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, M, N, A, lda, P, Q, FfpackSingular);
+        bool singular = LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, M, N, A, lda, P, Q, FfpackSingular) < N;
 
         FFLAS::fflas_delete( P);
         FFLAS::fflas_delete( Q);
-- 
2.43.0


From 6360c4e1f52a8bc8c922dd42f95bf1cf50e1c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:03 +0000
Subject: [PATCH 13/62] fix: Invert applies the column permutation of the
 Gauss-Jordan elimination

---
 fflas-ffpack/ffpack/ffpack_invert.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_invert.inl b/fflas-ffpack/ffpack/ffpack_invert.inl
index 96058c0..f49128f 100644
--- a/fflas-ffpack/ffpack/ffpack_invert.inl
+++ b/fflas-ffpack/ffpack/ffpack_invert.inl
@@ -49,6 +49,8 @@ namespace FFPACK {
         size_t R =  ReducedRowEchelonForm (F, M, M, A, lda, P, Q, true, FfpackGaussJordanTile);
         nullity = (int)(M - R);
         applyP (F, FFLAS::FflasRight, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
+        if (R == M) // the column permutation is not the identity when pivots are not found in order
+            applyP (F, FFLAS::FflasLeft, FFLAS::FflasTrans, M, 0, (int)M, A, lda, Q);
         FFLAS::fflas_delete(P);
         FFLAS::fflas_delete(Q);
 
-- 
2.43.0


From 66973291427aba1af90d2f978ef5feffe9690e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 14/62] fix: ReducedRowEchelonForm with FfpackGaussJordanSlab
 and no transform eliminates by slabs

---
 fflas-ffpack/ffpack/ffpack_echelonforms.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_echelonforms.inl b/fflas-ffpack/ffpack/ffpack_echelonforms.inl
index 6a5762a..63c1dab 100644
--- a/fflas-ffpack/ffpack/ffpack_echelonforms.inl
+++ b/fflas-ffpack/ffpack/ffpack_echelonforms.inl
@@ -223,6 +223,11 @@ FFPACK::ReducedRowEchelonForm (const Field& F, const size_t M, const size_t N,
     for (size_t i=0; i<M; i++) P[i] = i;
     if ((LuTag == FfpackGaussJordanSlab || LuTag == FfpackGaussJordanTile) && transform)
         return Protected::GaussJordan(F, M, N, A, lda, 0, 0, N, P, Qt, LuTag);
+    if (LuTag == FfpackGaussJordanSlab){ // no transform required: Slab elimination
+        size_t r = ReducedRowEchelonForm (F, M, N, A, lda, P, Qt, transform, FfpackSlabRecursive, psH);
+        for (size_t i=r; i<N; i++) Qt[i] = i;
+        return r;
+    }
     size_t r = RowEchelonForm (F, M, N, A, lda, P, Qt, transform, LuTag, psH);
     if (LuTag == FfpackSlabRecursive){
         // Putting Echelon in compressed triangular form : M = M Q
-- 
2.43.0


From 6569503cd4f3152cc2cd5f6e1d430b4b63d8bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 15/62] fix: fgemv with an empty transposed matrix leaves Y
 instead of scaling it by beta

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index a9665ec..a09ab96 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -130,9 +130,9 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
         size_t Xdim = (ta == FflasNoTrans)?N:M;
+        if (!Ydim) {return Y;}
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
                 fzero (F, Ydim, Y, incY);
@@ -347,9 +347,9 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
         size_t Xdim = (ta == FflasNoTrans)?N:M;
+        if (!Ydim) {return Y;}
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
                 fzero (F, Ydim, Y, incY);
-- 
2.43.0


From 7ebbdf4e3e181913a061a03ad95006a8668b2506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 16/62] fix: recursive parallel fgemv reads the wrong columns
 of A when A is transposed

---
 fflas-ffpack/paladin/pfgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemv.inl b/fflas-ffpack/paladin/pfgemv.inl
index c6f0234..2c7962f 100644
--- a/fflas-ffpack/paladin/pfgemv.inl
+++ b/fflas-ffpack/paladin/pfgemv.inl
@@ -52,7 +52,7 @@ namespace FFLAS
                         H1.parseq.set_numthreads(H.parseq.numthreads() >> 1);
                         H2.parseq.set_numthreads(H.parseq.numthreads() - H1.parseq.numthreads());
                         typename Field::ConstElement_ptr A1 = A;
-                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim);
+                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim2);
                         typename Field::Element_ptr C1 = Y;
                         typename Field::Element_ptr C2 = Y + Ydim2*incY;
                         if (ta==FflasNoTrans){
-- 
2.43.0


From 3fa07e0e401cf3e5eb88ca5a9dc4c73eea306624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 17/62] fix: fmove zeroes B without moving it to A

---
 fflas-ffpack/fflas/fflas_level2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 7910050..0ffb6f2 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -414,7 +414,7 @@ namespace FFLAS {
            typename Field::Element_ptr A, const size_t lda,
            typename Field::Element_ptr B, const size_t ldb )
     {
-        fassign(F,m,n,A,lda,B,ldb);
+        fassign(F,m,n,B,ldb,A,lda);
         fzero(F,m,n,B,ldb);
     }
 
-- 
2.43.0


From 1357fd51da6e0d063ccf3192c7d98290e246b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 18/62] fix: parallel fdot writes past its partial sums when
 the cut has more blocks than threads

---
 fflas-ffpack/paladin/fflas_plevel1.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/fflas_plevel1.h b/fflas-ffpack/paladin/fflas_plevel1.h
index 53999ea..aa29abc 100644
--- a/fflas-ffpack/paladin/fflas_plevel1.h
+++ b/fflas-ffpack/paladin/fflas_plevel1.h
@@ -96,12 +96,13 @@ namespace FFLAS
          typename Field::Element& d,
          const ParSeqHelper::Parallel<Cut,Param> par)
     {
-        const size_t rs(par.numthreads());
+        // one partial sum per block: with Grain or Fixed cuts, this is not the number of threads
+        const size_t rs(ForStrategy1D<size_t,Cut,Param>(N, par).numblocks());
         typename Field::Element_ptr z(fflas_new(F,rs));
         for(size_t i=0;i<rs;++i) F.init(z[i]);
 
         SYNCH_GROUP({
-                    FORBLOCK1D(iter, N, SPLITTER(rs, Cut, Param), {
+                    FORBLOCK1D(iter, N, par, {
                                const size_t i( iter.blockindex() );
 
                                TASK(MODE(CONSTREFERENCE(F) READ(x,y) WRITE(z[i])), {
-- 
2.43.0


From eaa0c625edb98ea862852ef35d2fe6aa214d16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:02 +0000
Subject: [PATCH 19/62] fix: 2D block cuts by Grain or Fixed size drop the
 trailing rows and columns

---
 fflas-ffpack/paladin/blockcuts.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index a27b552..72a4a1b 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -291,6 +291,10 @@ namespace FFLAS {
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
 
+        // spread over the blocks whatever remains (more than one row per block with Grain or Fixed cuts)
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
+
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
         if (changeRBS) ++rowBlockSize;
-- 
2.43.0


From 95f0fc90c06ca93f9a28d2c5219e2d750e352568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:30 +0000
Subject: [PATCH 20/62] fix: MonotonicApplyP leaks its permutation when no
 pivot moves

---
 fflas-ffpack/ffpack/ffpack_permutation.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_permutation.inl b/fflas-ffpack/ffpack/ffpack_permutation.inl
index 1ee8142..a68c9ea 100644
--- a/fflas-ffpack/ffpack/ffpack_permutation.inl
+++ b/fflas-ffpack/ffpack/ffpack_permutation.inl
@@ -66,8 +66,10 @@ namespace FFPACK {
                 if(maxpiv < MathP[i]) maxpiv = MathP[i];
             }
         }
-        if (!pivrowstomove) // Permutation is the identity
+        if (!pivrowstomove){ // Permutation is the identity
+            delete[] MathP;
             return;
+        }
 
         for (size_t i=R; i<lenP; i++)
             if (MathP[i] != i)
-- 
2.43.0


From 25b75fa33ebb7bc2779ff932a57087e3e66091d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:19 +0000
Subject: [PATCH 21/62] fix: fsyr2k with K=0 scales C by beta twice

---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..a5a3e23 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,10 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
+        if (!K){
+            fscalin(F, N,N, beta, C, ldc);
+            return C;
+        }
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From 6c28a8aa8611562dd1cfbedb2a8dbda81eaa75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:19 +0000
Subject: [PATCH 22/62] fix: Strassen fsyrk writes before C when its dimension
 is smaller than the recursion cut

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index 3eb1f86..e7db4ab 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -452,6 +452,7 @@ namespace FFLAS {
                     MMHelper<Field, MMHelperAlgo::Winograd, FieldTrait> & WH
                     ) {
             // Comments are written for the NoTrans, Lower version
+        if (!N) return C;
         if (WH.recLevel == 0){
             MMHelper<Field, MMHelperAlgo::Classic, FieldTrait>  CH(WH);
             fsyrk (F, uplo, trans, N, K, alpha, A, lda, beta, C, ldc,CH);
-- 
2.43.0


From 4dc777a3f994fd1b69ed7342dabbec8e3a9e7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:19 +0000
Subject: [PATCH 23/62] fix: block-diagonal fsyrk indexes the 2x2 block marks
 of its K columns by a row index

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..96b728e 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -723,7 +723,6 @@ namespace FFLAS {
 
         }else {
             size_t N1 = N>>1;
-            if (twoBlocks[N1-1]) N1++; // don't split a 2x2 block
             size_t N2 = N - N1;
             // Comments written for the case UpLo==FflasUpper, trans==FflasNoTrans
 
-- 
2.43.0


From 85f8708e42bac00dd9b0cb5ed868b0a67adc7b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:54 +0000
Subject: [PATCH 24/62] fix: Strassen fsyrk forgets the bounds of its
 K-remainder update before scaling by alpha

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index e7db4ab..52648d3 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -421,6 +421,9 @@ namespace FFLAS {
         H2.Cmin = H.Outmin;
         H2.Cmax = H.Outmax;
         fsyrk (F, UpLo, trans, Ns, K-Ks, alpha, A12, lda, F.one, C, ldc, H2);
+            // the remaining blocks of C are reduced
+        H.Outmin = std::min (H2.Outmin, H.FieldMin);
+        H.Outmax = std::max (H2.Outmax, H.FieldMax);
 
             // C22 = [A21 A22] x [A21 A22]^T
         fsyrk (F, UpLo, trans, N-Ns, K, alpha, A21, lda, beta, C+Ns*(ldc+1), ldc);
-- 
2.43.0


From 4b20d03157a47f525a65fe73d03e5fa7c5c90464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:04 +0000
Subject: [PATCH 25/62] fix: max3 returns max(m, min(n,k)), so Strassen fsyrk
 underestimates its result

---
 fflas-ffpack/fflas/fflas_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_enum.h b/fflas-ffpack/fflas/fflas_enum.h
index 8d82a3a..f75a690 100644
--- a/fflas-ffpack/fflas/fflas_enum.h
+++ b/fflas-ffpack/fflas/fflas_enum.h
@@ -86,7 +86,7 @@ namespace FFLAS {
 
     template <class T> const T &min3(const T &m, const T &n, const T &k) { return std::min(m, std::min(n, k)); }
 
-    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::min(n, k)); }
+    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::max(n, k)); }
 
     template <class T> const T &min4(const T &m, const T &n, const T &k, const T &l) {
         return std::min(std::min(m, n), std::min(k, l));
-- 
2.43.0


From 79bf654a70bbcff55f6fa1d3f35228f5a617bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 26/62] fix: fsytrf leaks its diagonal when the matrix has no
 generic rank profile

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 0dc6389..83014b2 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -692,7 +692,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, seq, threshold);
-        if (!success) return false;
+        if (!success){
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
@@ -707,7 +710,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, par, threshold);
-        if (!success) return false;
+        if (!success){
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
-- 
2.43.0


From 6a960c1cfd01fa6ee34de87a079bdc6cd7274505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:35 +0000
Subject: [PATCH 27/62] fix: ftrsm's delayed updates use Winograd recursion
 beyond the classical dot-product bound

---
 fflas-ffpack/fflas/fflas_ftrsm_src.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrsm_src.inl b/fflas-ffpack/fflas/fflas_ftrsm_src.inl
index 8223750..9fdaa01 100644
--- a/fflas-ffpack/fflas/fflas_ftrsm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrsm_src.inl
@@ -321,16 +321,22 @@ public:
 
 
 
+            // ndel only bounds the classical product: no Winograd recursion over D
+#ifndef __FFLAS_MULTIPRECISION
+            MMHelper<__FFLAS__DOMAIN, MMHelperAlgo::Winograd, typename ModeTraits<__FFLAS__DOMAIN>::value, ParSeqTrait> HD (D, 0, H.parseq);
+#else
+            ParSeqTrait& HD = H.parseq;
+#endif
 #ifdef __FFLAS__RIGHT
             fgemm (D, FflasNoTrans, Mjoin (Fflas, __FFLAS__TRANS),
                    __FFLAS__Mb2, __FFLAS__Nb2, nsplit, D.mOne,
                    __FFLAS__B1, ldb, __FFLAS__A2, lda,
-                   F.one, __FFLAS__B2, ldb, H.parseq);
+                   F.one, __FFLAS__B2, ldb, HD);
 #else
             fgemm (D, Mjoin (Fflas, __FFLAS__TRANS), FflasNoTrans,
                    __FFLAS__Mb2, __FFLAS__Nb2, nsplit, D.mOne,
                    __FFLAS__A2, lda, __FFLAS__B1, ldb,
-                   F.one, __FFLAS__B2, ldb, H.parseq);
+                   F.one, __FFLAS__B2, ldb, HD);
 #endif //__FFLAS__RIGHT
 
             this->delayed (F, __FFLAS__Mb2, __FFLAS__Nb2,
-- 
2.43.0


From 3f0dab0d28a26d47f504adb3615c89f3704ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 28/62] fix: sparse block product scales Y by beta with the
 leading dimension 1

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 1aaf816..4561fb3 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -53,9 +53,9 @@ namespace FFLAS {
                 if (F.isZero(b)) {
                     fzero(F, m, n, y, ldy);
                 } else if (F.isMOne(b)) {
-                    fnegin(F, m, n, y, 1);
+                    fnegin(F, m, n, y, ldy);
                 } else {
-                    fscalin(F, m, n, b, y, 1);
+                    fscalin(F, m, n, b, y, ldy);
                 }
             }
         }
-- 
2.43.0


From af0a589a03024d36f83dae181971ffad225d2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 29/62] fix: products by a sparse 'zero-one' matrix with
 constant other than 1 or -1 ignore the constant

---
 fflas-ffpack/fflas/fflas_sparse.inl | 50 ++++++++++++++---------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 4561fb3..7f45f2b 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -164,7 +164,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::GenericTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -180,7 +180,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -199,7 +199,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one_simd(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one_simd(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
             // #else
@@ -315,9 +315,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -344,13 +344,13 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
-                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -366,9 +366,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -478,9 +478,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -509,13 +509,13 @@ namespace FFLAS {
                                                                     FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
-                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -531,9 +531,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
-- 
2.43.0


From a54ee2280e9bd5b30e2c7564ca3932c810040391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:43 +0000
Subject: [PATCH 30/62] fix: block product by a sparse 'zero-one' matrix
 reduces the transposed block of Y

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 7f45f2b..046af0a 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -379,7 +379,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                   ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #if defined(__FFLASFFPACK_USE_OPENMP)
@@ -544,7 +544,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                    ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #endif // __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
-- 
2.43.0


From 00398e5e095348a3ea75826194ca09782094b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 31/62] fix: product of a sparse COO matrix and a vector stores
 unreduced sums when the reductions are delayed

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
index 18977ad..6f512eb 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
@@ -128,12 +128,13 @@ namespace FFLAS {
                         e += dat[w] * x[col[w]];
                         accu += 1;
                     } else {
-                        F.axpyin(e, dat[w], x[col[w]]);
-                        accu = 0;
+                        F.reduce(e);
+                        e += dat[w] * x[col[w]];
+                        accu = 1;
                     }
                 } else { // new line
                     F.init(y[larow_i]);
-                    F.assign(y[larow_i], e);
+                    F.reduce(y[larow_i], e);
                     larow_i = row[w];
                     F.init(e);
                     F.assign(e, y[larow_i]);
@@ -143,7 +144,7 @@ namespace FFLAS {
                 ++w;
             }
             F.init(y[larow_i]);
-            F.assign(y[larow_i], e);
+            F.reduce(y[larow_i], e);
         }
 
         template <class Field>
-- 
2.43.0


From 6442e29ad5bf65f16f5086aec73f4e38b1c150e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 32/62] fix: product of a sparse COO matrix and a block of
 vectors is not computed when the reductions must be delayed

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
index 3a200ea..ddc016c 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
@@ -174,21 +174,24 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            // TODO: delay the reductions
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                        const int64_t kmax) {
-            // TODO
+            // TODO: delay the reductions
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                          const int64_t kmax) {
-            // TODO
+            // TODO: delay the reductions
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
-- 
2.43.0


From 64211032b94f7b5ae00de3407d89eca50271eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 33/62] fix: block product by a sparse ELL_ZO matrix swaps the
 leading dimensions of X and Y

---
 .../fflas/fflas_sparse/ell/ell_spmm.inl       | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
index c9a424b..741c014 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
@@ -446,13 +446,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -478,13 +478,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -510,13 +510,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
@@ -542,13 +542,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
-- 
2.43.0


From 25131de2c085a5df7b543438177db8a8af8911ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:53 +0000
Subject: [PATCH 34/62] fix: sparse block products use aligned vector accesses
 on blocks whose rows are not aligned

---
 fflas-ffpack/fflas/fflas_sparse.inl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 046af0a..90e34ce 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -261,7 +261,7 @@ namespace FFLAS {
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -285,7 +285,7 @@ namespace FFLAS {
                 freduce(F, A.m, blockSize, y, ldy);
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -328,7 +328,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -336,7 +336,7 @@ namespace FFLAS {
                                                                   FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -346,7 +346,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
                 fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
-                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -422,7 +422,7 @@ namespace FFLAS {
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -446,7 +446,7 @@ namespace FFLAS {
                 freduce(F, A.m, blockSize, y, ldy);
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -493,7 +493,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -501,7 +501,7 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 } else {
@@ -511,7 +511,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
                 fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
-                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-- 
2.43.0


From 8d73bfa70ba67df47740fbce224c2c4ffc7f11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 35/62] fix: parallel block product by a sparse CSR_ZO matrix
 of constant -1 adds the last columns instead of subtracting them

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
index f52b7b3..34f5ff3 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
@@ -821,7 +821,7 @@ inline void pfspmm_mone_simd_aligned(const Field &F, const Sparse<Field, SparseM
                                 simd::store(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
@@ -893,7 +893,7 @@ inline void pfspmm_mone_simd_unaligned(const Field &F, const Sparse<Field, Spars
                                 simd::storeu(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
-- 
2.43.0


From 69ea855913b3fd31d447a361530507090dc02f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:04 +0000
Subject: [PATCH 36/62] fix: multiprecision fgemm ignores beta when k is 0 or
 an operand is zero

---
 .../fflas/fflas_fgemm/fgemm_classical_mp.inl    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 14a2ac3..73a25eb 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -332,7 +332,10 @@ namespace FFLAS {
             return C;
         }
 
-        if (k==0) return C;
+        if (k==0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
@@ -352,8 +355,11 @@ namespace FFLAS {
 
         mC = 2*uint64_t(k)*H.normA*H.normB*abs(alpha); // need to use 2x bound to reach both positive and negative
 
-        // A or B is zero, no need to modify C
-        if (mC == 0) return C;
+        // A or B is zero
+        if (mC == 0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
 
         // construct an RNS structure and its associated Domain
         FFPACK::rns_double RNS(mC, prime_bitsize);
@@ -600,7 +606,10 @@ namespace FFLAS {
             return C;
         }
 
-        if (k==0) return C;
+        if (k==0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
-- 
2.43.0


From 9ed442dfd9bb5b268cb3945ba2f364436f383f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:04 +0000
Subject: [PATCH 37/62] fix: parallel fgemm over an RNS returns before its
 tasks are done

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 73a25eb..1801ea2 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -225,6 +225,7 @@ namespace FFLAS {
                         }
                         })
                   );
+        WAIT;
 #ifdef PROFILE_FGEMM_MP
         t.stop();
         std::cerr<<"=========================================="<<std::endl
@@ -297,6 +298,7 @@ namespace FFLAS {
                         }
                         }); // TASK
         ); // FLORBLOCK1D
+        WAIT;
 
 #ifdef PROFILE_FGEMM_MP
         t.stop();
-- 
2.43.0


From 7878fb790009c6ee39b8c4418d3309fa5511f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:04 +0000
Subject: [PATCH 38/62] fix: determinant and characteristic polynomial over Z
 are added to the former value of the result

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 2 +-
 fflas-ffpack/ffpack/ffpack_det_mp.inl      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 54b6808..310e3f8 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -88,7 +88,7 @@ namespace FFPACK {
 
         //std::cerr<<"fconvert...";
         charp.resize(N+1);
-        FFLAS::fconvert_rns (Zrns,1,N+1, Givaro::Integer(1),&(charp[0]), N+1, CPrns);
+        FFLAS::fconvert_rns (Zrns,1,N+1, Givaro::Integer(0),&(charp[0]), N+1, CPrns);
         //std::cerr<<"...done"<<std::endl;
 
         FFLAS::fflas_delete(Arns);
diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 9a026c1..2bd2121 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -73,7 +73,7 @@ namespace FFPACK {
 
         FFLAS::finit_rns(Zrns,N,N,(Abs/16)+((Abs%16)?1:0),A,lda,Arns);
         Det(Zrns, Detrns, N, Arns, N, psH);
-        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(1),&det, 1, Detrns);
+        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(0),&det, 1, Detrns);
 
         FFLAS::fflas_delete(Arns);
         FFLAS::fflas_delete(Detrns);
-- 
2.43.0


From 2470172795ae67bc4247e7461012127550539cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:04 +0000
Subject: [PATCH 39/62] fix: RNS bases for determinant and characteristic
 polynomial over Z leave no room for the sign

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 3 ++-
 fflas-ffpack/ffpack/ffpack_det_mp.inl      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 310e3f8..aefa2a5 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -70,7 +70,8 @@ namespace FFPACK {
         // See [Dumas Pernet Wang ISSAC'05] for the following bound on the bitsize
         // of the coefficients of the characteristic polynomial
         int64_t CPbs = (int64_t) ceil(N/2.0*(log(double(N))/log(2.0)+2*Abs+0.21163275));
-        Givaro::Integer CPbound = Givaro::Integer(1) << CPbs;
+        // twice the bound, as the coefficients are signed
+        Givaro::Integer CPbound = Givaro::Integer(1) << (CPbs+1);
 
         FFPACK::rns_double RNS(CPbound, 23);
         typedef FFPACK::RNSInteger<FFPACK::rns_double> RnsDomain;
diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 2bd2121..59d11c7 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -63,7 +63,8 @@ namespace FFPACK {
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
         // Hadamard's bound on the bitsize of the determinant over Z
         int64_t Detbs = (int64_t) ceil (N * (log(double(N))/(log(2.0)*2.0) + Abs));
-        Givaro::Integer Detbound = Givaro::Integer(1) << Detbs;
+        // twice the bound, as the determinant is signed
+        Givaro::Integer Detbound = Givaro::Integer(1) << (Detbs+1);
         FFPACK::rns_double RNS(Detbound, 23);
         typedef FFPACK::RNSInteger<FFPACK::rns_double> RnsDomain;
         RnsDomain Zrns(RNS);
-- 
2.43.0


From a333b98b667a81a5794b4782205da8bef1b29d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 40/62] fix: Krylov preconditioning of the characteristic
 polynomial misses its Las Vegas failures on matrices with few distinct
 iterates and returns wrong factors

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 31 ++++++++++++------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index a42fb54..825a19f 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -137,27 +137,25 @@ namespace FFPACK { namespace Protected {
             // @todo: replace by PLUQ
         size_t R = LUdivine(F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, N, N, K, ldk, Pk, Qk);
         size_t row_idx = 0;
-        size_t ii=0;
         size_t dold = degree;
         size_t nb_full_blocks = 0;
         size_t Mk = 0;
         // Determining the degree sequence dK
         for (size_t k = 0; k<noc; ++k){
             size_t d = 0;
-            while ( (d<degree) && (row_idx<R) && (Qk[row_idx] == ii)) {ii++; row_idx++; d++;}
-            if (d > dold){
+            while ( (d<degree) && (row_idx<R) && (Qk[row_idx] == k*degree+d)) {row_idx++; d++;}
+            if ( (d > dold) || ((row_idx<R) && (Qk[row_idx] < (k+1)*degree)) ){
                 // std::cerr << "FAIL in preconditionning phase:"
                 //           << " degree sequence is not monotonically not increasing"
+                //           << " or the independent iterates of a block are not its first ones"
                 // 	     << std::endl;
-                FFLAS::fflas_delete (K, Pk, Qk, dA, dK);
+                FFLAS::fflas_delete (K, K2, Pk, Qk, dA, dK);
                 throw CharpolyFailed();
             }
             dK[k] = dold = d;
             Mk++;
             if (d == degree)
                 nb_full_blocks++;
-            if (row_idx < N)
-                ii = Qk[row_idx];
         }
 #ifdef __FFLASFFPACK_ARITHPROG_PROFILING
         timelim.stop();
@@ -185,6 +183,10 @@ namespace FFPACK { namespace Protected {
         // K <- K U^-1
         ftrsm (F, FFLAS::FflasRight, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, Mk, R,F.one, K, ldk, K4, ldk);
 
+        // Remaining columns of K: zero iff the rows of K belong to the span of the Krylov basis
+        if (R<N)
+            fgemm (F, FFLAS::FflasNoTrans, FFLAS::FflasNoTrans, Mk, N-R, R, F.mOne, K4, ldk, K+R, ldk, F.one, K4+R, ldk);
+
         // L <-  Q^T L
         applyP(F, FFLAS::FflasLeft, FFLAS::FflasNoTrans, N, 0,(int) R, K, ldk, Qk);
 
@@ -200,7 +202,7 @@ namespace FFPACK { namespace Protected {
         size_t offset = Ncurr-1;
         for (size_t i=Mk-1; i>=nb_full_blocks+1;  --i){
             if (dK[i] >= 1){
-                for (size_t j = offset+1; j<R; ++j)
+                for (size_t j = offset+1; j<N; ++j)
                     if (!F.isZero(*(K4 + i*ldk + j))){
                         //std::cerr<<"FAIL C != 0 in preconditionning"<<std::endl;
                         FFLAS::fflas_delete (K,K3,K4,Pk,Qk,dA,dK);
@@ -218,6 +220,12 @@ namespace FFPACK { namespace Protected {
         }
         Mk = Ma;
 
+        // Las Vegas check: the remaining blocks must not depend on the completed ones, nor leave the span of the Krylov basis
+        if (! FFLAS::fiszero (F, nb_full_blocks+1, N-Ncurr, K4+Ncurr, ldk)){
+            FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
+            throw CharpolyFailed();
+        }
+
 #ifdef __FFLASFFPACK_ARITHPROG_PROFILING
         timsimilar.stop();
         std::cerr <<"  Similarity)              : "<<timsimilar.usertime()<<std::endl;
@@ -226,15 +234,6 @@ namespace FFPACK { namespace Protected {
         if (R<N){
                 // The Krylov basis did not span the whole space
                 // Recurse on the complementary subspace
-            if (! FFLAS::fiszero (F, nb_full_blocks+1, N-R, K4+R, ldk)){
-                
-            // for (size_t i=0; i<nb_full_blocks + 1; ++i)
-            //     for (size_t j=R; j<N; ++j){
-            //         if (!F.isZero( *(K4+i*ldk+j) )){
-                        FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
-                        throw CharpolyFailed();
-            }
-
             size_t Nrest = N-R;
             typename Field::Element_ptr K21 = K + R*ldk;
             typename Field::Element_ptr K22 = K21 + R;
-- 
2.43.0


From 54e45b99e72a41be0f85d9aeeb7c5794d06e79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 41/62] fix: arithmetic progression characteristic polynomial
 goes on with a singular Krylov basis

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index 825a19f..121924f 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -445,9 +445,9 @@ namespace FFPACK { namespace Protected {
             size_t *P=FFLAS::fflas_new<size_t>(Mk);
             size_t *Q=FFLAS::fflas_new<size_t>(Mk);
             if (LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, Mk, Mk , K3 + (Ncurr-Mk)*ldk, ldk, P, Q) < Mk){
-                // should never happen (not a LAS VEGAS check)
                 //std::cerr<<"FAIL R2 < MK"<<std::endl;
-                //			exit(-1);
+                FFLAS::fflas_delete (P, Q, rp, Arp, Ac, K, K3, dA, dK);
+                throw CharpolyFailed();
             }
             ftrsm (F, FFLAS::FflasLeft, FFLAS::FflasLower, FFLAS::FflasNoTrans, FFLAS::FflasUnit, Mk, Mk,F.one,
                    K3 + (Ncurr-Mk)*ldk, ldk, K+(Ncurr-Mk)*ldk, ldk);
-- 
2.43.0


From 1a227004d63e715e8023aa074c09ebbd325be293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:51 +0000
Subject: [PATCH 42/62] fix: writing a matrix in binary format ignores the
 leading dimension and the column-major option

---
 fflas-ffpack/utils/fflas_io.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index e879867..7074387 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -253,7 +253,13 @@ namespace FFLAS{
                              c<<std::endl;
                              c.write ( reinterpret_cast<char*> (&m), sizeof (size_t));
                              c.write ( reinterpret_cast<char*> (&n), sizeof (size_t));
-                             c.write ( reinterpret_cast<const char*> (A), sizeof(typename Field::Element)*m*n);
+                             for (size_t i = 0; i<m; ++i){
+                                 if (column_major)
+                                     for (size_t j=0; j<n;++j)
+                                         c.write ( reinterpret_cast<const char*> (A+j*lda+i), sizeof(typename Field::Element));
+                                 else
+                                     c.write ( reinterpret_cast<const char*> (A+i*lda), sizeof(typename Field::Element)*n);
+                             }
                              break;
                          }
         default:{ // format == FflasMath
-- 
2.43.0


From 493c73aecdc1f01981d0bef893ca1af57734edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:51 +0000
Subject: [PATCH 43/62] fix: matrices over balanced floating point fields are
 written with six significant digits

---
 fflas-ffpack/utils/fflas_io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 7074387..f017ca0 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -185,6 +185,8 @@ namespace FFLAS{
     inline std::ostream& WriteMatrix (std::ostream& c, const Field& F, size_t m, size_t n,
                                       typename Field::ConstElement_ptr A, size_t lda,
                                       FFLAS_FORMAT format, bool column_major) {
+        // enough digits to write floating point representations of integers exactly
+        const std::streamsize old_precision = c.precision (std::numeric_limits<double>::max_digits10);
         switch (format){
         case FflasSageMath:
             c << "Matrix (";
@@ -277,6 +279,7 @@ namespace FFLAS{
                     }
                 }
         }
+        c.precision (old_precision);
         return c ;
     }
 
-- 
2.43.0


From dfd6d7863b029b196ca966af2f8f87af9325d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:00 +0000
Subject: [PATCH 44/62] fix: reading an SMS file writes before the matrix for
 an entry of column 0

---
 fflas-ffpack/utils/fflas_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index f017ca0..13a6908 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -117,7 +117,7 @@ namespace FFLAS{
                                   return NULL;
                               }
                               F.read (ifs, val);
-                              if (i>0 && i>0) F.assign (A [(i-1)*n+j-1], val);
+                              if (i>0 && j>0) F.assign (A [(i-1)*n+j-1], val);
                           } while (!(i==0 && j==0 && F.isZero(val)));
                           break;
                       }
-- 
2.43.0


From ace4a2b6da2c8e50c5cce90b3ae5fd69bbafd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:50 +0000
Subject: [PATCH 45/62] fix: reading a truncated or malformed matrix file loops
 for ever or returns a matrix of stale entries

---
 fflas-ffpack/utils/fflas_io.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 13a6908..c11f37f 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -81,6 +81,7 @@ namespace FFLAS{
                 typename Field::Element_ptr& A, FFLAS_FORMAT format = FflasAuto){
 
         FFLAS_FORMAT form = format;
+        A = NULL;
 
         if (form == FflasAuto){
             // Preamble analysis. Update form to the discovered format.
@@ -91,8 +92,9 @@ namespace FFLAS{
         case FflasDense:{
                             ifs >> m;
                             ifs >> n;
+                            if (ifs.fail()) break;
                             A = fflas_new(F, m,n);
-                            for (size_t i=0; i<m*n; i++){
+                            for (size_t i=0; i<m*n && !ifs.fail(); i++){
                                 F.read (ifs, A[i]);
                             }
                             break;
@@ -108,15 +110,17 @@ namespace FFLAS{
                           std::string tmp;
                           typename Field::Element val;
                           ifs >> tmp;
+                          if (ifs.fail()) break;
                           A = fflas_new(F, m,n);
                           fzero(F,m,n,A,n);
                           do{
                               ifs >> i >> j;
-                              if (i>m || j>n){
-                                  std::cerr<<"Matrix file does not respect the SMS format"<<std::endl;
-                                  return NULL;
-                              }
                               F.read (ifs, val);
+                              // truncated file, or entry out of the matrix
+                              if (ifs.fail() || i>m || j>n || ((i==0 || j==0) && !(i==0 && j==0 && F.isZero(val)))){
+                                  ifs.setstate (std::ios::failbit);
+                                  break;
+                              }
                               if (i>0 && j>0) F.assign (A [(i-1)*n+j-1], val);
                           } while (!(i==0 && j==0 && F.isZero(val)));
                           break;
@@ -131,14 +135,20 @@ namespace FFLAS{
                              size_t mm, nn;
                              ifs.read(reinterpret_cast<char *>(&mm), sizeof(size_t));
                              ifs.read(reinterpret_cast<char *>(&nn), sizeof(size_t));
+                             if (ifs.fail()) break;
                              m=mm,n=nn;
                              A = fflas_new(F, m,n);
                              ifs.read (reinterpret_cast<char *>(A), sizeof(typename Field::Element)*m*n);
-                             ifs.close();
                              break;
                          }
         default:
                          std::cerr<<"Unable to detect the file format"<<std::endl;
+                         return NULL;
+        }
+        if (ifs.fail()){
+            std::cerr<<"Matrix file is truncated or does not respect its format"<<std::endl;
+            fflas_delete (A);
+            A = NULL;
         }
         return A;
     }
@@ -161,6 +171,7 @@ namespace FFLAS{
         if (format == FflasBinary)
             mode |= std::ifstream::binary;
 
+        A = NULL;
         std::ifstream ifs (matrix_file, mode);
         if (ifs.is_open()){
             ReadMatrix (ifs, F, m, n, A, format);
-- 
2.43.0


From f062b82a613d4b208a8696ae7f19f38151b4584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:50 +0000
Subject: [PATCH 46/62] fix: a matrix file cut short by a write error goes
 unreported

---
 fflas-ffpack/utils/fflas_io.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index c11f37f..ec3e89f 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -318,6 +318,8 @@ namespace FFLAS{
         if (ofs.is_open()){
             WriteMatrix (ofs, F, m, n, A, lda, format, column_major);
             ofs.close();
+            if (!ofs)
+                std::cerr<<"Error: unable to write file "<<matrix_file<<std::endl;
         } else
             std::cerr<<"Error: unable to open file "<<matrix_file<<std::endl;
     }
-- 
2.43.0


From 502486c3f56461de59d44c8f0425ec0137d2c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:46 +0000
Subject: [PATCH 47/62] fix: reading an empty or missing sparse matrix file
 loops for ever, and a last line without newline is refused

---
 fflas-ffpack/fflas/fflas_sparse/read_sparse.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
index d00708d..b541f56 100644
--- a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
+++ b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
@@ -77,6 +77,10 @@ namespace FFLAS {
         std::vector<Coo<Field>> data;
         while (true) { /* comments ? */
             std::getline(file,line);
+            if (file.fail()) {
+                std::cerr << "file " << path << " is not in sms/smf format " << std::endl;
+                exit(1);
+            }
             if (line.empty()) {
                 continue ;
             }
@@ -129,7 +133,7 @@ namespace FFLAS {
             }
             std::getline(file,line);
             // std::cout << i << ',' << nnz << std::endl;
-            if (file.bad() || file.eof())
+            if (file.fail())
                 exit(-3);
             if (line.empty()){
                 continue;
-- 
2.43.0


From 49cec652c5e6dd2ffab5db95c92ee5a9a522fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:46 +0000
Subject: [PATCH 48/62] fix: an entry outside the dimensions of a sparse matrix
 file overruns the row index

---
 fflas-ffpack/fflas/fflas_sparse/read_sparse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
index b541f56..9feeee4 100644
--- a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
+++ b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
@@ -149,7 +149,8 @@ namespace FFLAS {
                 }
                 typename Field::Element v;
 
-                assert(l && c);
+                if (!l || !c || l > rowdim || c > coldim)
+                    exit(1);
                 f.init(v, d);
                 if (!f.isZero(v)) {
                     if (!sorted) {
-- 
2.43.0


From 22d9481eff582084e4c3cb29d58af53ac89fd2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:55 +0000
Subject: [PATCH 49/62] fix: sparse matrix files with zero entries, unsorted
 entries or empty last rows give an inconsistent matrix

---
 fflas-ffpack/fflas/fflas_sparse/read_sparse.h | 28 ++++---------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
index 9feeee4..9c1df36 100644
--- a/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
+++ b/fflas-ffpack/fflas/fflas_sparse/read_sparse.h
@@ -115,8 +115,8 @@ namespace FFLAS {
         row = fflas_new<index_t>(rowdim+1);
         std::memset(row,0, sizeof(index_t)*(rowdim+1));
         assert(!row[0] && !row[rowdim]);
-        std::vector<index_t> colid((sms)?0:nnz);
-        std::vector<typename Field::Element> dat((sms)?0:nnz);
+        std::vector<index_t> colid;
+        std::vector<typename Field::Element> dat;
 
 
         /* got header */
@@ -158,14 +158,8 @@ namespace FFLAS {
                     }
                     else {
                         row[l] += 1 ;
-                        if (!sms) {
-                            colid[i] = c-1 ;
-                            dat[i] = v ;
-                        }
-                        else {
-                            colid.push_back(c-1);
-                            dat.push_back(v);
-                        }
+                        colid.push_back(c-1);
+                        dat.push_back(v);
                     }
                 }
             }
@@ -174,10 +168,8 @@ namespace FFLAS {
             }
             ++i ;
         }
-        if (sms) {
-            nnz=dat.size();
-        }
-        assert(i == nnz);
+        // entries that are zero in the field are not stored
+        nnz = sorted ? dat.size() : data.size();
 
         col = fflas_new<index_t>(nnz);
         val = fflas_new(f, nnz);
@@ -188,14 +180,6 @@ namespace FFLAS {
             std::sort(data.begin(), data.end(), [](const Coo<Field> &a, const Coo<Field> &b) {
                       return (a.row < b.row) || ((a.row == b.row) && (a.col < b.col));
                       });
-            auto rowmax = (std::max_element(data.begin(), data.end(),
-                                            [](const Coo<Field> &a, const Coo<Field> &b) { return a.row < b.row; }))->row;
-            if (rowdim != rowmax + 1) {
-                std::cout << "Matrix row dimension change : " << rowdim << " -> " << rowmax << std::endl;
-                rowdim = rowmax;
-            }
-
-
             for (size_t j = 0, end = data.size(); j < end; ++j) {
                 val[j] = data[j].val;
                 col[j] = data[j].col;
-- 
2.43.0


From 3e817128ce803a95c6edc7968f0ce311fea39523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:38 +0000
Subject: [PATCH 50/62] fix: random lower triangular matrices with more rows
 than columns overrun their rows

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 968f304..f8942dd 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -140,9 +140,9 @@ namespace FFPACK {
             }
         } else { // FflasLower
             for (size_t i=0 ; i<m ; ++i){
-                for (size_t j=0; j<=i ;++j)
+                for (size_t j=0; j<std::min(i+1,n) ;++j)
                     G.random (A[i*lda+j]);
-                FFLAS::fzero (F, n-1-std::min(i,n-1), A + i*lda + i+1, 1);
+                FFLAS::fzero (F, n-std::min(i+1,n), A + i*lda + std::min(i+1,n), 1);
             }
         }
         if (Diag == FFLAS::FflasUnit){
-- 
2.43.0


From 11f14c2014953b81b5277950fd4beeddd608eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:38 +0000
Subject: [PATCH 51/62] fix: RandomMatrixWithRank ignores the prescribed rank

---
 fflas-ffpack/utils/fflas_randommatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index f8942dd..40b6449 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -264,7 +264,7 @@ namespace FFPACK{
         FFPACK::applyP (F, FFLAS::FflasLeft,  FFLAS::FflasNoTrans,
                         m,0,(int)m, L, m, Q);
         FFLAS::fgemm (F, FFLAS::FflasNoTrans, FFLAS::FflasNoTrans,
-                      m, n, m, F.one, L, m, U, n, F.zero, A, lda);
+                      m, n, r, F.one, L, m, U, n, F.zero, A, lda);
         // @todo compute LU with ftrtr
 
         FFLAS::fflas_delete(P);
-- 
2.43.0


From a05f2e4ed45f59ff6aed6161bc5b7e8b9f0e50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:38 +0000
Subject: [PATCH 52/62] fix: RandomMatrixWithDet overruns its buffers for n = 0

---
 fflas-ffpack/utils/fflas_randommatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 40b6449..821782d 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -970,6 +970,7 @@ namespace FFPACK{
     RandomMatrixWithDet(const Field & F, size_t n, const typename Field::Element d,
                         typename Field::Element_ptr A, size_t lda, RandIter& G){
         FFLASFFPACK_check(n <= lda);
+        if (n == 0) return A;
         typedef typename Field::Element  Element ;
         Givaro::GeneralRingNonZeroRandIter<Field,RandIter> nzG (G);
 
-- 
2.43.0


From b61d7d8d6237e2ca7f0ccd9620a116e6542c44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:38 +0000
Subject: [PATCH 53/62] fix: RandomSymmetricMatrix returns a non symmetric
 matrix of stale entries when a diagonal draw is zero

---
 fflas-ffpack/utils/fflas_randommatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 821782d..383400a 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -208,6 +208,9 @@ namespace FFPACK {
                 F.init(inv);
                 F.inv(inv, A[i*(lda+1)]);
                 FFLAS::fscal(F, n-i-1, inv, A+i*(lda+1)+1, 1, A+i*(lda+1)+lda, lda);
+            } else { // no pivot: no contribution of this row and column
+                FFLAS::fzero(F, n-i-1, A+i*(lda+1)+1, 1);
+                FFLAS::fzero(F, n-i-1, A+i*(lda+1)+lda, lda);
             }
         }
         ftrtrm (F, FFLAS::FflasRight, FFLAS::FflasNonUnit, n, A, lda);
-- 
2.43.0


From 408c82fa1747fc1cea480ebb19d851ac11e8f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:25 +0000
Subject: [PATCH 54/62] fix: RandomSymmetricRankProfileMatrix may loop for ever
 when the rank is odd

---
 fflas-ffpack/utils/fflas_randommatrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 383400a..38f1beb 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -359,11 +359,13 @@ namespace FFPACK{
         for (size_t k=0; k<R; k+=2){
             size_t i = RandInt(k,N);
             size_t j = RandInt(k,N);
-            cols[k] = cc[j];
-            cc[j] = cc[k];
-            rows[k] = rr[i];
-            rr[i] = rr[k];
-            if (rows[k] != cols[k] && k < R-1){
+            if (k < R-1){ // otherwise, the only pivot left is picked on the diagonal below
+                cols[k] = cc[j];
+                cc[j] = cc[k];
+                rows[k] = rr[i];
+                rr[i] = rr[k];
+            }
+            if (k < R-1 && rows[k] != cols[k]){
                 // adding the symmetric element
                 rows[k+1] = cols[k];
                 cols[k+1] = rows[k];
-- 
2.43.0


From aaf79fa0cbf33f57b256f9665e144e37924ab364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:12 +0000
Subject: [PATCH 55/62] fix: random quasi-separable rank profiles miss the
 requested order after an undone move

---
 fflas-ffpack/utils/fflas_randommatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 38f1beb..b032016 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -692,14 +692,14 @@ namespace FFPACK{
                 // O(n)
                 for (size_t k = 0; k<n-1; k++){
                     if (k <= prev_i) {
-                        nb_pivot_after_index_not_moved[k]--;
+                        nb_pivot_after_index_not_moved[k]++;
                     }
                     if (k >= prev_i) {
-                        nb_pivot_before_index_not_moved[k]--;
+                        nb_pivot_before_index_not_moved[k]++;
                     }
                 }
 
-                H[prev_i] = 0;
+                H[prev_i] = 1;
 
                 ++loop;
                 if (prev_h != h) {
-- 
2.43.0


From e5811d9dedea1587f55fe1ea76354a8bfa683dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:12 +0000
Subject: [PATCH 56/62] fix: two functions of the random matrix header are not
 inline, so it cannot be included in two translation units

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index b032016..23752a6 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -499,7 +499,7 @@ namespace FFPACK{
 
     // O(1)
     // estimate what rank a submatrix is able to reach given the current configuration of the algorithm
-    size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
+    inline size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
         // Compute the valuation of a given leading submatrix ti
             return ti + std::min(i + 1 - nb_pivot_bf_i, nb_pivot_after_i_not_moved - Is_pivot_not_moved) +
                         std::min(n - (i + 1) - nb_pivot_after_i, nb_pivot_before_i_not_moved - Is_pivot_not_moved);
@@ -512,7 +512,7 @@ namespace FFPACK{
      * @param [out] rows
      * @param [out] cols
     */
-    void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
+    inline void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
 
         // if (r <= 0 || n <= 0 || t <= 0) {
         //     std::cout << "care, all the arguments must be positive" << std::endl;
-- 
2.43.0


From 494091fd2ed141694eb5480edfcd3fb4349fea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 57/62] fix: honour the leading dimensions and the empty matrix
 in the Bruhat generators

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 3d6f924..4ce61d9 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -35,6 +35,7 @@ inline size_t LTBruhatGen (const Field& Fi, const FFLAS::FFLAS_DIAG diag,
            typename Field::Element_ptr A, const size_t lda,
            size_t * P, size_t * Q)
     {
+        if (N == 0) return 0;
         if (N == 1) {Fi.assign(*(A+0), Fi.zero);
         return(0);}
         
@@ -117,7 +118,7 @@ inline void getLTBruhatGen(const Field& Fi, const FFLAS::FFLAS_UPLO Uplo,const F
                            typename Field::ConstElement_ptr A, const size_t lda,
                            typename Field::Element_ptr T, const size_t ldt)
 
-{   FFLAS::fzero(Fi, N, N, T, N);
+{   FFLAS::fzero(Fi, N, N, T, ldt);
     if (Uplo==FFLAS::FflasUpper) {     //U
         if(diag==FFLAS::FflasNonUnit){
             for(size_t i=0; i<r;i++){
@@ -225,7 +226,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
    Bruhat2EchelonPermutation (N,r,outer,inner,M);
     size_t * MLap = FFLAS::fflas_new<size_t>(N);
     MathPerm2LAPACKPerm(MLap, M, N);
-    applyP (Fi, Side, Trans, N, size_t(0), N, C, lda, MLap);
+    applyP (Fi, Side, Trans, N, size_t(0), N, C, ldc, MLap);
     size_t * pivot_outer_pos = FFLAS::fflas_new<size_t>(r);
   size_t * last_coeff = FFLAS::fflas_new<size_t>(r);
   for (size_t i=0;i<r;i++)
-- 
2.43.0


From cefb5aaa78787545d86673a49f01ceacfed85111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 58/62] fix: release the workspaces of the compact Bruhat
 representation

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 4ce61d9..22ddc70 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -298,7 +298,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
     }
  
   FFLAS::fflas_delete(C);
-  FFLAS::fflas_delete(last_coeff);
+  FFLAS::fflas_delete(Inv, MLap, pivot_outer_pos, last_coeff);
   return(NbBlocks);
 
 }
@@ -361,6 +361,7 @@ if (Uplo==FFLAS::FflasUpper)//U
  else{
   applyP (Fi, FFLAS::FflasRight, FFLAS::FflasTrans, N, size_t(0), N, A, lda, MLap);
  }
+     FFLAS::fflas_delete(MLap);
 
 }
  // Compute the permutation M (in MathPermutation format) such that LM^T is in column echelon form, where L is the
@@ -798,6 +799,7 @@ inline  void productBruhatxTS (const Field& Fi, size_t N, size_t s, size_t r, si
 
         FFLAS::fflas_delete (CRE);
     }
+    FFLAS::fflas_delete (Tuinv, Tlinv, R);
 }
 } //namespace FFPACK
 #endif //_FFPACK_ffpack_bruhatgen_inl
-- 
2.43.0


From e19fc49132709b97989536e3fd399e1d010085ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:05 +0000
Subject: [PATCH 59/62] fix: FFPACK functions of the C interface that take an
 enumeration have C++ linkage and cannot be called from C

Their definitions named the C++ enumerations, so they were overloads of the
functions declared in ffpack_c.h. Three declarations missed a parameter.
---
 fflas-ffpack/interfaces/libs/ffpack.C   | 64 ++++++++++++-------------
 fflas-ffpack/interfaces/libs/ffpack_c.h | 10 ++--
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index b16de46..7e15c80 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -171,8 +171,8 @@ void cyclic_shift_col_modular_double(const double p, double * A, size_t m, size_
 
 void
 applyP_modular_double( const double p,
-                       const enum FFLAS::FFLAS_SIDE Side,
-                       const enum FFLAS::FFLAS_TRANSPOSE Trans,
+                       const enum FFLAS_C_SIDE Side,
+                       const enum FFLAS_C_TRANSPOSE Trans,
                        const size_t M, const size_t ibeg, const size_t iend,
                        double * A, const size_t lda, const size_t * P
                        , bool positive)
@@ -190,7 +190,7 @@ applyP_modular_double( const double p,
 
 void
 fgetrsin_modular_double (const double p,
-                         const enum FFLAS::FFLAS_SIDE Side,
+                         const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * A, const size_t lda,
                          const size_t *P, const size_t *Q,
@@ -209,8 +209,8 @@ fgetrsin_modular_double (const double p,
 
 
 double *
-fgetrsv_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+fgetrs_modular_double (const double p,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t NRHS, const size_t R,
                         double * A, const size_t lda,
                         const size_t *P, const size_t *Q,
@@ -232,7 +232,7 @@ fgetrsv_modular_double (const double p,
 
 size_t
 fgesvin_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N,
                         double * A, const size_t lda,
                         double * B, const size_t ldb,
@@ -252,7 +252,7 @@ fgesvin_modular_double (const double p,
 
 size_t
 fgesv_modular_double (const double p,
-                      const enum FFLAS::FFLAS_SIDE Side,
+                      const enum FFLAS_C_SIDE Side,
                       const size_t M, const size_t N, const size_t NRHS,
                       double * A, const size_t lda,
                       double * X, const size_t ldx,
@@ -273,7 +273,7 @@ fgesv_modular_double (const double p,
 
 
 void
-ftrtri_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtri_modular_double (const double p, const enum FFLAS_C_UPLO Uplo, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda
                        , bool positive)
 {
@@ -301,15 +301,15 @@ void trinv_left_modular_double( const double p, const size_t N, const double * L
 }
 
 void
-ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda, bool positive)
 {
     if (positive) {
         Modular<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     } else {
         ModularBalanced<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     }
 }
 
@@ -318,7 +318,7 @@ ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum
 /* PLUQ */
 
 size_t
-PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+PLUQ_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                      const size_t M, const size_t N,
                      double * A, const size_t lda,
                      size_t*P, size_t *Q
@@ -334,7 +334,7 @@ PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
 }
 
 size_t
-LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                          const size_t M, const size_t N,
                          double * A, const size_t lda,
                          size_t* P, size_t* Qt,
@@ -355,7 +355,7 @@ LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  con
 #if 0 /*  UTILE ?? */
 
 size_t
-LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_small_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -363,7 +363,7 @@ LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag
 
 
 size_t
-LUdivine_gauss_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+LUdivine_gauss_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -1014,7 +1014,7 @@ Solve_modular_double( const double p, const size_t M,
 
 
 void
-solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t R,
                         double * L, const size_t ldl,
                         const size_t * Q,
@@ -1033,7 +1033,7 @@ solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 
 
 void
-solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB2_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * L, const size_t ldl,
                          const size_t * Q,
@@ -1056,7 +1056,7 @@ solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 /*************/
 
 
-void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                            const size_t M, const size_t N,
                                            double * A, const size_t lda,
                                            double * X, const size_t incX
@@ -1073,7 +1073,7 @@ void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFL
 
 
 
-size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                       const size_t M, const size_t N,
                                       double * A, const size_t lda,
                                       double ** NS, size_t* ldn,
@@ -1223,8 +1223,8 @@ size_t ColRankProfileSubmatrix_modular_double (const double p, const size_t M, c
 
 
 void
-getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                              const enum FFLAS::FFLAS_DIAG Diag,
+getTriangular_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                              const enum FFLAS_C_DIAG Diag,
                               const size_t M, const size_t N, const size_t R,
                               const double * A, const size_t lda,
                               double * T, const size_t ldt,
@@ -1243,8 +1243,8 @@ getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
 
 
 void
-getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                const enum FFLAS::FFLAS_DIAG Diag,
+getTriangularin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                const enum FFLAS_C_DIAG Diag,
                                 const size_t M, const size_t N, const size_t R,
                                 double * A, const size_t lda
                                 , bool positive)
@@ -1261,8 +1261,8 @@ getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Upl
 
 
 void
-getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                               const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                               const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N, const size_t R, const size_t* P,
                                const double * A, const size_t lda,
                                double * T, const size_t ldt,
@@ -1282,8 +1282,8 @@ getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo
 
 
 void
-getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                 const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                 const enum FFLAS_C_DIAG Diag,
                                  const size_t M, const size_t N, const size_t R, const size_t* P,
                                  double * A, const size_t lda,
                                  const enum FFPACK_C_LU_TAG LuTag
@@ -1300,8 +1300,8 @@ getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Up
 
 
 void
-getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                    const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                    const enum FFLAS_C_DIAG Diag,
                                     const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                     const double * A, const size_t lda,
                                     double * T, const size_t ldt,
@@ -1321,7 +1321,7 @@ getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO
 
 
 void
-getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                       const size_t M, const size_t N, const size_t R, const size_t* P,
                                       const double * A, const size_t lda,
                                       double * T, const size_t ldt,
@@ -1341,7 +1341,7 @@ getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UP
 
 
 void
-getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                         const size_t M, const size_t N, const size_t R, const size_t* P,
                                         double * A, const size_t lda,
                                         const enum FFPACK_C_LU_TAG LuTag
@@ -1359,7 +1359,7 @@ getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_
 
 
 void
-getReducedEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                            const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                            const double * A, const size_t lda,
                                            double * T, const size_t ldt,
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index 191e98a..bf0fff7 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -217,7 +217,8 @@ extern "C" {
                           double * A, const size_t lda,
                           double * X, const size_t ldx,
                           const double * B, const size_t ldb,
-                          int * info);
+                          int * info
+                          , bool positive );
 
     /* ftrtr */
 
@@ -234,8 +235,8 @@ extern "C" {
 
 
     void
-    ftrtrm_modular_double (const double p, const enum FFLAS_C_DIAG diag, const size_t N,
-                           double * A, const size_t lda
+    ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG diag,
+                           const size_t N, double * A, const size_t lda
                            , bool positive );
 
 
@@ -522,7 +523,8 @@ extern "C" {
                             const size_t M, const size_t N, const size_t R,
                             double * L, const size_t ldl,
                             const size_t * Q,
-                            double * B, const size_t ldb );
+                            double * B, const size_t ldb
+                            , bool positive  );
 
 
     void
-- 
2.43.0


From 9e7bc4d7aebe83330387696a1289695d9cfacc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 60/62] fix: parallel echelon forms of the C interface swap
 'transform' with the number of threads and are not declared

---
 fflas-ffpack/interfaces/libs/ffpack.C   | 24 +++----
 fflas-ffpack/interfaces/libs/ffpack_c.h | 85 +++++++++++++++++++++++++
 2 files changed, 97 insertions(+), 12 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index 7e15c80..d7db3f3 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -697,10 +697,10 @@ pReducedColumnEchelonForm_modular_float (const float p, const size_t M, const si
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -715,10 +715,10 @@ pReducedRowEchelonForm_modular_float (const float p, const size_t M, const size_
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -731,10 +731,10 @@ pColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -748,10 +748,10 @@ pRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -766,10 +766,10 @@ pReducedColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, cons
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -784,10 +784,10 @@ pReducedRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const s
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index bf0fff7..2ab17b1 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -375,6 +375,91 @@ extern "C" {
                                            , bool positive );
 
 
+    size_t
+    pColumnEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                       double * A, const size_t lda,
+                                       size_t* P, size_t* Qt, const bool transform,
+                                       const enum FFPACK_C_LU_TAG LuTag
+                                       , bool positive );
+
+    size_t
+    pRowEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                    double * A, const size_t lda,
+                                    size_t* P, size_t* Qt, const bool transform,
+                                    const enum FFPACK_C_LU_TAG LuTag
+                                    , bool positive );
+
+    size_t
+    pReducedColumnEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                              double * A, const size_t lda,
+                                              size_t* P, size_t* Qt, const bool transform,
+                                              const enum FFPACK_C_LU_TAG LuTag
+                                              , bool positive );
+
+    size_t
+    pReducedRowEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                           double * A, const size_t lda,
+                                           size_t* P, size_t* Qt, const bool transform,
+                                           const enum FFPACK_C_LU_TAG LuTag
+                                           , bool positive );
+
+    size_t
+    pColumnEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                      float * A, const size_t lda,
+                                      size_t* P, size_t* Qt, const bool transform,
+                                      const enum FFPACK_C_LU_TAG LuTag
+                                      , bool positive );
+
+    size_t
+    pRowEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                   float * A, const size_t lda,
+                                   size_t* P, size_t* Qt, const bool transform,
+                                   const enum FFPACK_C_LU_TAG LuTag
+                                   , bool positive );
+
+    size_t
+    pReducedColumnEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                             float * A, const size_t lda,
+                                             size_t* P, size_t* Qt, const bool transform,
+                                             const enum FFPACK_C_LU_TAG LuTag
+                                             , bool positive );
+
+    size_t
+    pReducedRowEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                          float * A, const size_t lda,
+                                          size_t* P, size_t* Qt, const bool transform,
+                                          const enum FFPACK_C_LU_TAG LuTag
+                                          , bool positive );
+
+    size_t
+    pColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                        int32_t * A, const size_t lda,
+                                        size_t* P, size_t* Qt, const bool transform,
+                                        const enum FFPACK_C_LU_TAG LuTag
+                                        , bool positive );
+
+    size_t
+    pRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                     int32_t * A, const size_t lda,
+                                     size_t* P, size_t* Qt, const bool transform,
+                                     const enum FFPACK_C_LU_TAG LuTag
+                                     , bool positive );
+
+    size_t
+    pReducedColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                               int32_t * A, const size_t lda,
+                                               size_t* P, size_t* Qt, const bool transform,
+                                               const enum FFPACK_C_LU_TAG LuTag
+                                               , bool positive );
+
+    size_t
+    pReducedRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                            int32_t * A, const size_t lda,
+                                            size_t* P, size_t* Qt, const bool transform,
+                                            const enum FFPACK_C_LU_TAG LuTag
+                                            , bool positive );
+
+
     size_t
     ReducedRowEchelonForm2_modular_double (const double p, const size_t M, const size_t N,
                                            double * A, const size_t lda,
-- 
2.43.0


From cdae1f938ba4acab0df358051d9143294bf2b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:50 +0000
Subject: [PATCH 61/62] fix: LQUPtoInverseOfFullRankMinor solves against U
 itself instead of the unit lower factor only

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 8095d79..794a6fe 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -302,7 +302,7 @@ namespace FFPACK{
         // X <- (Qt.L.Q)^(-1)
         //invL( F, rank, A_factors, lda, X, ldx);
         ftrtri (F, FFLAS::FflasLower, FFLAS::FflasUnit, rank, A_factors, lda);
-        FFLAS::fassign(F,rank,rank,A_factors,lda,X,ldx);
+        getTriangular (F, FFLAS::FflasLower, FFLAS::FflasUnit, rank, rank, rank, A_factors, lda, X, ldx, true);
 
         // X = U^-1.X
         ftrsm( F, FFLAS::FflasLeft, FFLAS::FflasUpper, FFLAS::FflasNoTrans,
-- 
2.43.0


From 51519fd46832fb03be50e8e835f188e16c7dc983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:12 +0000
Subject: [PATCH 62/62] fix: SYNCH_GROUP ends the lifetime of its local helpers
 before waiting for the tasks that use them

The group's block was closed before the taskwait, while the tasks hold references (shared) to helpers declared in that block
(parallel ftrsm, fgemm, PLUQ): stack-use-after-scope for every task executed at the wait.
---
 fflas-ffpack/paladin/parallel.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/parallel.h b/fflas-ffpack/paladin/parallel.h
index 5f9ae70..2ed3bb3 100644
--- a/fflas-ffpack/paladin/parallel.h
+++ b/fflas-ffpack/paladin/parallel.h
@@ -180,8 +180,7 @@ PRAGMA_OMP_IMPL(omp task M)           \
 {I;}
 
 
-#define SYNCH_GROUP(Args...)     {{Args};}\
-WAIT;
+#define SYNCH_GROUP(Args...)     {{Args; WAIT};}
 
 
 // macro omp taskwait (waits for all childs of current task)
-- 
2.43.0

