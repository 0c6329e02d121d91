From 206391438e2ff878d18f74de0450abd999b82d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 01/21] hooks: observation points for verification tools
 (guarded by ECOS_VTRACE)

---
 ecos_bb/ecos_bb.c     |  6 ++++++
 include/ecos_vtrace.h | 37 +++++++++++++++++++++++++++++++++++++
 src/ecos.c            |  8 ++++++++
 3 files changed, 51 insertions(+)
 create mode 100644 include/ecos_vtrace.h

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..50a1d6c 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -31,6 +31,7 @@
 #include "math.h"
 #include "equil.h"
 #include "spla.h"
+#include "ecos_vtrace.h"
 
 #include <string.h>
 
@@ -1144,6 +1145,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
     prob->global_L = prob->nodes[curr_node_idx].L;
     prob->global_U = prob->nodes[curr_node_idx].U;
+    ECOS_VTRACE_EVENT(ECOS_VT_BB_BOUND, prob, curr_node_idx);
 
     while (should_continue(prob, curr_node_idx))
     {
@@ -1161,15 +1163,19 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
         /* Branch replaces nodes[curr_node_idx] with leftNode*/
         /* and nodes[prob->iter] with rightNode */
         branch(curr_node_idx, prob);
+        ECOS_VTRACE_EVENT(ECOS_VT_BB_BRANCH, prob, curr_node_idx);
 
         /* Step 3*/
         get_bounds(curr_node_idx, prob);
+        ECOS_VTRACE_EVENT(ECOS_VT_BB_BOUND, prob, curr_node_idx);
         get_bounds(prob->iter, prob);
+        ECOS_VTRACE_EVENT(ECOS_VT_BB_BOUND, prob, prob->iter);
 
         /* Step 4*/
         prob->global_L = get_global_L(prob);
 
         curr_node_idx = get_next_node(prob);
+        ECOS_VTRACE_EVENT(ECOS_VT_BB_NEXT, prob, curr_node_idx);
     }
     load_solution(prob);
 
diff --git a/include/ecos_vtrace.h b/include/ecos_vtrace.h
new file mode 100644
index 0000000..1fdacf4
--- /dev/null
+++ b/include/ecos_vtrace.h
@@ -0,0 +1,37 @@
+/*
+ * ECOS - Embedded Conic Solver.
+ *
+ * Optional observation points for external verification tools. Everything in
+ * this file is inactive unless ECOS_VTRACE is defined; in normal builds
+ * ECOS_VTRACE_EVENT expands to nothing.
+ */
+#ifndef __ECOS_VTRACE_H__
+#define __ECOS_VTRACE_H__
+
+#ifdef ECOS_VTRACE
+
+#define ECOS_VT_ITER      (1)  /* pwork*: residuals and statistics of an iterate are known */
+#define ECOS_VT_EXIT      (2)  /* pwork*, exit flag: a solve is about to return            */
+#define ECOS_VT_BB_BOUND  (3)  /* ecos_bb_pwork*, node: the node has been bounded          */
+#define ECOS_VT_BB_BRANCH (4)  /* ecos_bb_pwork*, node: the node has been split            */
+#define ECOS_VT_BB_NEXT   (5)  /* ecos_bb_pwork*, node: next node chosen (-1: none)        */
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+/* Called at each observation point if not NULL. */
+extern void (*ecos_vtrace_cb)(int event, void* work, long arg);
+#ifdef __cplusplus
+}
+#endif
+
+#define ECOS_VTRACE_EVENT(ev, work, arg) \
+    do { if( ecos_vtrace_cb ) ecos_vtrace_cb((ev), (void*)(work), (long)(arg)); } while(0)
+
+#else
+
+#define ECOS_VTRACE_EVENT(ev, work, arg) do { } while(0)
+
+#endif
+
+#endif
diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..bed08fb 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -24,6 +24,7 @@
 #include "ecos.h"
 #include "splamm.h"
 #include "equil.h"
+#include "ecos_vtrace.h"
 
 /* NEEDED FOR SQRT ----------------------------------------------------- */
 #include <math.h>
@@ -44,6 +45,11 @@
  */
 static const char* thisVersion = ECOS_VERSION;
 
+#ifdef ECOS_VTRACE
+/* Observer for external verification tools, see ecos_vtrace.h */
+void (*ecos_vtrace_cb)(int event, void* work, long arg) = 0;
+#endif
+
 
 /**
  * Version: returns the current version number
@@ -1128,6 +1134,7 @@ idxint ECOS_solve(pwork* w)
 
 		/* Update statistics */
 		updateStatistics(w);
+		ECOS_VTRACE_EVENT(ECOS_VT_ITER, w, w->info->iter);
 
 #if PRINTLEVEL > 1
 		/* Print info */
@@ -1612,6 +1619,7 @@ idxint ECOS_solve(pwork* w)
 #if CTRLC > 0
     remove_ctrlc();
 #endif
+	ECOS_VTRACE_EVENT(ECOS_VT_EXIT, w, exitcode);
 	return exitcode;
 }
 
-- 
2.43.0


From 202572104c3f7aff93866b4d61fa368dd4a99cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 02/21] fix: transposeSparseMatrix returned uninitialised
 column pointers for an empty matrix

---
 src/splamm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..8129458 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,11 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    /* all columns of the transpose are empty */
+    for( i=0; i <= M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From 10ca8cf50a6b6efcae0686567db230a096abed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 03/21] fix: ECOS_setup leaked its workspace when the cone
 dimensions do not add up

---
 src/preproc.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..439b93d 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,28 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate
+     * (before anything is allocated) */
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += q[i]; }
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +737,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From 9101851f3c154bf921c46b33df0dd78390ac93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 04/21] fix: ECOS_setup leaked and left the caller's data
 equilibrated when the ordering fails

---
 src/preproc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/preproc.c b/src/preproc.c
index 439b93d..d902e22 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -941,6 +941,23 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 		PRINTTEXT("Problem in AMD ordering, exiting.\n");
         AMD_info(Info);
 #endif
+        /* give everything back and restore the caller's (equilibrated) data */
+        mywork->KKT->P = P;
+        mywork->KKT->L = newSparseMatrix(nK, nK, 0);
+        mywork->rx = NULL;
+        mywork->ry = NULL;
+        mywork->rz = NULL;
+        FREE(Sign);
+        if(At) {
+            freeSparseMatrix(At);
+            FREE(AtoAt);
+            FREE(AttoK);
+        }
+        freeSparseMatrix(Gt);
+        freeSparseMatrix(KU);
+        FREE(GtoGt);
+        FREE(GttoK);
+        ECOS_cleanup(mywork, 0);
         return NULL;
 	}
 
-- 
2.43.0


From bc2d5f7b38dfc3a080f4c68b93a8b4e21c52ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 05/21] fix: ECOS_updateData dereferenced the missing A of
 problems without equality constraints

---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index bed08fb..19bd104 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1664,10 +1664,10 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* This is required for backward compatibility since existing code might need this step. */
     if (
         ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
+        (!w->A || (Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
         ((c + w->n < w->c) || (w->c + w->n < c)) &&
         ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        (!w->A || (b + w->p < w->b) || (w->b + w->p < b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From 82c35b3c3b503729cab42d73dbf3cef2fc4c6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 06/21] fix: ECOS_updateData took adjacent arrays for the
 attached ones and left the old data equilibrated

---
 src/ecos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 19bd104..33b8ef4 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1663,11 +1663,11 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
     if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        (!w->A || (Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        (!w->A || (b + w->p < w->b) || (w->b + w->p < b))
+        ((Gpr + w->G->nnz <= w->G->pr) || (w->G->pr + w->G->nnz <= Gpr)) &&
+        (!w->A || (Apr + w->A->nnz <= w->A->pr) || (w->A->pr + w->A->nnz <= Apr)) &&
+        ((c + w->n <= w->c) || (w->c + w->n <= c)) &&
+        ((h + w->m <= w->h) || (w->h + w->m <= h)) &&
+        (!w->A || (b + w->p <= w->b) || (w->b + w->p <= b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From 7e70590ac5aca4197dfec84dc74eccf139239dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 07/21] fix: ECOS_updateData left replaced arrays equilibrated
 when another array stays attached

---
 include/equil.h |  7 +++++++
 src/ecos.c      | 12 ++----------
 src/equil.c     | 28 ++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/include/equil.h b/include/equil.h
index d758f8b..9e46ef9 100644
--- a/include/equil.h
+++ b/include/equil.h
@@ -45,6 +45,13 @@ void set_equilibration(pwork *w);
  */
 void unset_equilibration(pwork *w);
 
+/**
+ * unset_equilibration_of_replaced: As unset_equilibration, but only for those
+ * arrays of the workspace which the given new ones do not overlap.
+ */
+void unset_equilibration_of_replaced(pwork *w, const pfloat *Gpr, const pfloat *Apr,
+                                     const pfloat *h, const pfloat *b);
+
 
 #endif
 #endif
diff --git a/src/ecos.c b/src/ecos.c
index 33b8ef4..f28ccb4 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1660,17 +1660,9 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     idxint k;
 
 #if defined EQUILIBRATE && EQUILIBRATE > 0
-    /* Only unequilibrate the old data if the new data is in a different location in memory. */
+    /* Only unequilibrate those arrays whose new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
-    if (
-        ((Gpr + w->G->nnz <= w->G->pr) || (w->G->pr + w->G->nnz <= Gpr)) &&
-        (!w->A || (Apr + w->A->nnz <= w->A->pr) || (w->A->pr + w->A->nnz <= Apr)) &&
-        ((c + w->n <= w->c) || (w->c + w->n <= c)) &&
-        ((h + w->m <= w->h) || (w->h + w->m <= h)) &&
-        (!w->A || (b + w->p <= w->b) || (w->b + w->p <= b))
-    ){
-    unset_equilibration(w);
-    }
+    unset_equilibration_of_replaced(w, Gpr, Apr, h, b);
 #endif
 
     /* update pointers */
diff --git a/src/equil.c b/src/equil.c
index 975014d..27205be 100644
--- a/src/equil.c
+++ b/src/equil.c
@@ -393,4 +393,32 @@ void unset_equilibration(pwork *w)
     }
 }
 
+static int disjoint(const pfloat *u, const pfloat *v, idxint n)
+{
+    return (u + n <= v) || (v + n <= u);
+}
+
+void unset_equilibration_of_replaced(pwork *w, const pfloat *Gpr, const pfloat *Apr,
+                                     const pfloat *h, const pfloat *b)
+{
+    idxint i;
+    idxint num_A_rows = w->A ? w->A->m : 0;
+    idxint num_G_rows = w->G->m;
+
+    if(w->A && disjoint(Apr, w->A->pr, w->A->nnz))
+        restore(w->Aequil, w->xequil, w->A);
+    if(num_G_rows > 0 && disjoint(Gpr, w->G->pr, w->G->nnz))
+        restore(w->Gequil, w->xequil, w->G);
+    if(num_A_rows > 0 && disjoint(b, w->b, num_A_rows)) {
+        for(i = 0; i < num_A_rows; i++) {
+            w->b[i] *= w->Aequil[i];
+        }
+    }
+    if(num_G_rows > 0 && disjoint(h, w->h, num_G_rows)) {
+        for(i = 0; i < num_G_rows; i++) {
+            w->h[i] *= w->Gequil[i];
+        }
+    }
+}
+
 #endif
-- 
2.43.0


From f8a0a54b203c4698c09ab78a97ab20b4c519a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 08/21] fix: ECOS_solve left the caller's interrupt handler and
 objective modified on the OUTCONE and FATAL exits

---
 src/ecos.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index f28ccb4..5987f49 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1120,6 +1120,12 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        for(i = 0; i <w->n; i++) { w->c[i] *= w->xequil[i]; }
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1311,11 +1317,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
-
-            } else {
-                break;
+                exitcode = ECOS_OUTCONE;
             }
+            break;
         }
 
 		/* Update KKT matrix with scalings */
@@ -1346,7 +1350,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From 4d41805cd3c4e283f4ee6a7a89ebd4080d8cca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 09/21] fix: stopping at the first iterate restored a best
 iterate that was never saved

---
 src/ecos.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 5987f49..dea2e4d 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1217,8 +1217,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 const char *what = interrupted ? "SIGINT intercepted" : "Maximum number of iterations reached";
 #endif
-                /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                /* Determine whether current iterate is better than what we had so far
+                 * (at the first iterate nothing has been saved yet) */
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
@@ -1250,8 +1251,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 const char *what = "Reached NAN dead end";
 #endif
-                /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                /* Determine whether current iterate is better than what we had so far
+                 * (at the first iterate nothing has been saved yet) */
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
-- 
2.43.0


From e1e407124ad8d1bf2c5fa26f867e0a8dbba7197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 10/21] fix: updateDataEntry_h of branch and bound ignored the
 bound rows of integer variables

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 50a1d6c..48f0088 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1190,7 +1190,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From e48459c1c0b285090fddea4590ea65dd24653cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 11/21] fix: branch and bound mixed up bound rows when the
 variable lists are not in column order

---
 ecos_bb/ecos_bb_preproc.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..eef7ba8 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -54,6 +54,17 @@ static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
     return (int)ans;
 }
 
+/* Position of variable idx in the list vars_idx (which contains it) */
+static idxint position(idxint idx, idxint *vars_idx)
+{
+    idxint i = 0;
+    while (vars_idx[i] != idx)
+    {
+        ++i;
+    }
+    return i;
+}
+
 /* Augments the G and b arrays to take lb and ub constraints
  * for all of the variables marked integer
  * USES MALLOC
@@ -74,11 +85,13 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
         if (contains(i, num_bool_vars, bool_vars_idx))
         {
+            /* the branch and bound addresses bound rows by list position */
+            j = position(i, bool_vars_idx);
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -103,11 +116,11 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else if (contains(i, num_int_vars, int_vars_idx))
         {
+            j = num_bool_vars + position(i, int_vars_idx);
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +145,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From a0ac0d45940382daa1dd1e7a1cddecfa5bc0a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 12/21] fix: ECOS_BB_setup dereferenced NULL when ECOS_setup
 rejects the problem

---
 ecos_bb/ecos_bb_preproc.c | 63 +++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index eef7ba8..f74c739 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -163,6 +163,36 @@ static void socp_to_ecos_bb(
     }
 }
 
+/* Frees the memory of the branch and bound module itself */
+static void free_ecos_bb(ecos_bb_pwork *prob)
+{
+    FREE(prob->tmp_bool_node_id);
+    FREE(prob->tmp_int_node_id);
+    FREE(prob->tmp_branching_bool_node_id);
+    FREE(prob->tmp_branching_int_node_id);
+    FREE(prob->Gpr_new);
+    FREE(prob->Gjc_new);
+    FREE(prob->Gir_new);
+    FREE(prob->h_new);
+    FREE(prob->nodes);
+    FREE(prob->bool_node_ids);
+    FREE(prob->int_node_ids);
+    FREE(prob->x);
+    FREE(prob->y);
+    FREE(prob->z);
+    FREE(prob->s);
+    FREE(prob->info);
+    FREE(prob->pseudocost_bin_cnt);
+    FREE(prob->pseudocost_bin_sum);
+    FREE(prob->pseudocost_int_cnt);
+    FREE(prob->pseudocost_int_sum);
+    if (prob->default_settings)
+    {
+        FREE(prob->stgs);
+    }
+    FREE(prob);
+}
+
 ecos_bb_pwork *ECOS_BB_setup(
     idxint n, idxint m, idxint p,
     idxint l, idxint ncones, idxint *q, idxint nex,
@@ -293,6 +323,13 @@ ecos_bb_pwork *ECOS_BB_setup(
         Apr, Ajc, Air,
         c, prob->h_new, b);
 
+    if (prob->ecos_prob == NULL)
+    {
+        /* ECOS rejected the problem, it has nothing left to clean up */
+        free_ecos_bb(prob);
+        return NULL;
+    }
+
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
     prob->num_int_vars = num_int_vars;
@@ -339,31 +376,7 @@ void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
 {
     /* FREE solver memory*/
     ECOS_cleanup(prob->ecos_prob, num_vars_keep);
-    FREE(prob->tmp_bool_node_id);
-    FREE(prob->tmp_int_node_id);
-    FREE(prob->tmp_branching_bool_node_id);
-    FREE(prob->tmp_branching_int_node_id);
-    FREE(prob->Gpr_new);
-    FREE(prob->Gjc_new);
-    FREE(prob->Gir_new);
-    FREE(prob->h_new);
-    FREE(prob->nodes);
-    FREE(prob->bool_node_ids);
-    FREE(prob->int_node_ids);
-    FREE(prob->x);
-    FREE(prob->y);
-    FREE(prob->z);
-    FREE(prob->s);
-    FREE(prob->info);
-    FREE(prob->pseudocost_bin_cnt);
-    FREE(prob->pseudocost_bin_sum);
-    FREE(prob->pseudocost_int_cnt);
-    FREE(prob->pseudocost_int_sum);
-    if (prob->default_settings)
-    {
-        FREE(prob->stgs);
-    }
-    FREE(prob);
+    free_ecos_bb(prob);
 }
 
 settings_bb *get_default_ECOS_BB_settings()
-- 
2.43.0


From aa35bc0287ff987b0c3312a6cd0f7b2c243737a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 13/21] fix: branch and bound forgot the value of the incumbent
 found at the root

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 48f0088..51a9ba1 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1143,8 +1143,8 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
 
+    /* get_bounds keeps global_U, the value of the stored incumbent, up to date */
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
     ECOS_VTRACE_EVENT(ECOS_VT_BB_BOUND, prob, curr_node_idx);
 
     while (should_continue(prob, curr_node_idx))
-- 
2.43.0


From 6a414f72334e0a7b9d9c3398911c6d0fed71ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 14/21] fix: branch and bound loaded an uninitialised incumbent
 when it found no solution

---
 ecos_bb/ecos_bb.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 51a9ba1..723edc9 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1177,7 +1177,11 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
         curr_node_idx = get_next_node(prob);
         ECOS_VTRACE_EVENT(ECOS_VT_BB_NEXT, prob, curr_node_idx);
     }
-    load_solution(prob);
+    /* without an incumbent there is nothing to load */
+    if (!isinf(prob->global_U))
+    {
+        load_solution(prob);
+    }
 
 #if MI_PRINTLEVEL > 0
     if (prob->stgs->verbose)
-- 
2.43.0


From 66e295b81013a417d37067056ff233fab9af49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 15/21] fix: branch and bound reported problems with unbounded
 relaxation as infeasible

---
 ecos_bb/ecos_bb.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 723edc9..7fe543b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1056,6 +1056,13 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
+    else if (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET)
+    { /* The relaxation is unbounded, no bound can ever be proved */
+        prob->nodes[node_idx].L = -ECOS_INFINITY;
+        prob->nodes[node_idx].U = -ECOS_INFINITY;
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+        prob->global_U = -ECOS_INFINITY;
+    }
     else
     { /*Assume node infeasible*/
         prob->nodes[node_idx].L = ECOS_INFINITY;
-- 
2.43.0


From 05a25de8fbfe5d030b07c482fc0921250d4ab46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 16/21] fix: branch and bound took interrupted relaxations for
 infeasible nodes and went on

---
 ecos_bb/ecos_bb.c | 35 +++++++++++++++++++++++++++++++----
 include/ecos_bb.h |  3 +++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 7fe543b..daf6083 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -31,6 +31,7 @@
 #include "math.h"
 #include "equil.h"
 #include "spla.h"
+#include "ctrlc.h"
 #include "ecos_vtrace.h"
 
 #include <string.h>
@@ -392,13 +393,30 @@ static void initialize_strong_branching(ecos_bb_pwork *problem, idxint node_idx)
     memcpy(problem->tmp_branching_int_node_id, get_int_node_id(node_idx, problem), int_node_size);
 }
 
+/*
+ * Solves the relaxation currently set up and remembers whether the user interrupted
+ */
+static idxint solve_relaxation(ecos_bb_pwork *prob)
+{
+    idxint ret_code = ECOS_SIGINT;
+    if (!prob->interrupted)
+    {
+        ret_code = ECOS_solve(prob->ecos_prob);
+        prob->interrupted = (ret_code == ECOS_SIGINT);
+#if CTRLC > 0
+        prob->interrupted |= (check_ctrlc() != 0);
+#endif
+    }
+    return ret_code;
+}
+
 /*
  * Calculates the relaxation (and ecos_result) for the tmp_branching node
  */
 static void calc_tmp_branching_problem(ecos_bb_pwork *problem, pfloat *relaxation, idxint *ecos_result)
 {
     set_prob(problem, problem->tmp_branching_bool_node_id, problem->tmp_branching_int_node_id);
-    *ecos_result = ECOS_solve(problem->ecos_prob);
+    *ecos_result = solve_relaxation(problem);
     *relaxation = eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c);
 }
 
@@ -893,7 +911,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     viable_rounded_sol = 0;
 
     set_prob(prob, get_bool_node_id(node_idx, prob), get_int_node_id(node_idx, prob));
-    ret_code = ECOS_solve(prob->ecos_prob);
+    ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
     if (prob->stgs->verbose)
@@ -1004,7 +1022,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             }
 #endif
             set_prob(prob, prob->tmp_bool_node_id, prob->tmp_int_node_id);
-            ret_code = ECOS_solve(prob->ecos_prob);
+            ret_code = solve_relaxation(prob);
 
 #if MI_PRINTLEVEL > 1
             if (prob->stgs->verbose)
@@ -1063,6 +1081,10 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         prob->global_U = -ECOS_INFINITY;
     }
+    else if (ret_code == ECOS_SIGINT)
+    { /* Interrupted, the node keeps the bounds of its parent */
+        return;
+    }
     else
     { /*Assume node infeasible*/
         prob->nodes[node_idx].L = ECOS_INFINITY;
@@ -1073,11 +1095,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return !prob->interrupted && (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
 {
+    if (prob->interrupted)
+    {
+        return ECOS_SIGINT;
+    }
     if (prob->iter < prob->stgs->maxit - 1)
     {
         if (isinf(prob->global_U))
@@ -1146,6 +1172,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /* of http://stanford.edu/class/ee364b/lectures/bb_slides.pdf*/
     prob->iter = 0;
     prob->dive_node_id = 0;
+    prob->interrupted = 0;
     initialize_root(prob);
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index b1fa622..0649bfd 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -179,6 +179,9 @@ extern "C"
 		settings_bb *stgs;
 		idxint default_settings;
 
+		/* set when the user interrupted the search */
+		idxint interrupted;
+
 	} ecos_bb_pwork;
 
 	ecos_bb_pwork *ECOS_BB_setup(
-- 
2.43.0


From 8954b9c2a2e801c6e4e8ec95920643ad4a8259f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 17/21] fix: vanishing iterates passed for certificates,
 infeasible problems were reported unbounded

---
 src/ecos.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index dea2e4d..4fc9c3a 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -535,9 +535,11 @@ void updateStatistics(pwork* w)
 	 * CVXOPT uses the following:
      * info->pinfres = w->hz + w->by < 0 ? w->hresx / w->resx0 / (-w->hz - w->by) : NAN;
      * info->dinfres = w->cx < 0 ? MAX(w->hresy/w->resy0, w->hresz/w->resz0) / (-w->cx) : NAN;
+     *
+     * A certificate may be scaled freely, so its residual is measured relative to its own size.
      */
-    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->pinfres = (w->hz + w->by)/(w->ny+w->nz) < -w->stgs->reltol ? w->hresx / (w->ny+w->nz) : ECOS_NAN;
+    info->dinfres = w->cx/w->nx < -w->stgs->reltol ? MAX(w->hresy/w->nx, w->hresz/(w->nx+w->ns)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From baf6f207769c725f5df947fa7999743b35ac070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 18/21] fix: reliability branching split on the previous
 variable again when every candidate was decided by strong branching

---
 ecos_bb/ecos_bb.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index daf6083..0530fa8 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -771,7 +771,13 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint ecos_result;
     pfloat q;
-    pfloat *x_values = NULL;
+
+    /* strong branching below overwrites the solution of the current node */
+    pfloat *x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+
+    /* set split idx to something impossible, the last one may be fixed by now */
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -788,7 +794,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_values[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -812,8 +818,6 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
                 strong_initialized = 1;
 
                 calc_tmp_branching_problem(problem, &q, &ecos_result);
-                x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
-                memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
             }
 
             var_idx = i;
-- 
2.43.0


From 451c1b132c2d4e8afe024b68c4de6355603379a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 19/21] fix: the safeguard took the fall of tau on infeasible
 problems for a growing primal residual

---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 4fc9c3a..78d8cfd 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1157,7 +1157,7 @@ idxint ECOS_solve(pwork* w)
          * If the safeguard is activated, the solver tests if reduced precision has been reached, and reports
          * accordingly. If not even reduced precision is reached, ECOS returns the flag ECOS_NUMERICS.
          */
-        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0) ){
+        if( w->info->iter > 0 && (w->info->pres*w->tau > SAFEGUARD*pres_prev || w->info->gap < 0) ){
 #if PRINTLEVEL > 1
             if( w->stgs->verbose ) deleteLastProgressLine( w->info );
             if( w->stgs->verbose ) PRINTTEXT("Unreliable search direction detected, recovering best iterate (%i) and stopping.\n", (int)w->best_info->iter);
@@ -1178,7 +1178,7 @@ idxint ECOS_solve(pwork* w)
                 break;
             }
         }
-        pres_prev = w->info->pres;
+        pres_prev = w->info->pres*w->tau;
 
 
 		/* Check termination criteria to full precision and exit if necessary */
-- 
2.43.0


From a16b1f058e8830ab0a5d33b6c3711757cc3315df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 20/21] hooks: step and end-of-solve events (guard ECOS_VTRACE)

---
 include/ecos_vtrace.h | 2 ++
 src/ecos.c            | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/ecos_vtrace.h b/include/ecos_vtrace.h
index 1fdacf4..68dd97d 100644
--- a/include/ecos_vtrace.h
+++ b/include/ecos_vtrace.h
@@ -15,6 +15,8 @@
 #define ECOS_VT_BB_BOUND  (3)  /* ecos_bb_pwork*, node: the node has been bounded          */
 #define ECOS_VT_BB_BRANCH (4)  /* ecos_bb_pwork*, node: the node has been split            */
 #define ECOS_VT_BB_NEXT   (5)  /* ecos_bb_pwork*, node: next node chosen (-1: none)        */
+#define ECOS_VT_STEP      (6)  /* pwork*, iteration: the step is about to be taken         */
+#define ECOS_VT_LATE      (7)  /* pwork*, exit flag: interrupts are about to be released   */
 
 #ifdef __cplusplus
 extern "C" {
diff --git a/src/ecos.c b/src/ecos.c
index 78d8cfd..a7e9bf5 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1602,6 +1602,7 @@ idxint ECOS_solve(pwork* w)
 
 
 		/* Update variables */
+		ECOS_VTRACE_EVENT(ECOS_VT_STEP, w, w->info->iter);
 		for( i=0; i < w->n; i++ ){ w->x[i] += w->info->step * w->KKT->dx2[i]; }
 		for( i=0; i < w->p; i++ ){ w->y[i] += w->info->step * w->KKT->dy2[i]; }
 		for( i=0; i < w->m; i++ ){ w->z[i] += w->info->step * w->KKT->dz2[i]; }
@@ -1625,6 +1626,7 @@ idxint ECOS_solve(pwork* w)
 	if( w->stgs->verbose ) PRINTTEXT("\n\n");
 #endif
 
+	ECOS_VTRACE_EVENT(ECOS_VT_LATE, w, exitcode);
 #if CTRLC > 0
     remove_ctrlc();
 #endif
-- 
2.43.0


From bf71907373e1398b5f50cbb13b6501d9a5d2a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 21/21] fix: the verdict printed after a NaN dead end is that
 of the flag returned (ECOS_NUMERICS)

---
 src/ecos.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index a7e9bf5..f525d74 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1273,10 +1273,7 @@ idxint ECOS_solve(pwork* w)
                 if( exitcode == ECOS_NOT_CONVERGED_YET ){
                     exitcode = ECOS_NUMERICS;
 #if PRINTLEVEL > 0
-                    if( w->stgs->verbose ) {
-                        const char* what = interrupted ? "INTERRUPTED" : "RAN OUT OF ITERATIONS";
-                        PRINTTEXT("\n%s (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", what, MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
-                    }
+                    if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
                 }
                 break;
-- 
2.43.0

