From ae90317c8d88f5d0fdd3bfcde3101c9f161fb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 01/14] fix: count the objective of an empty fixed column once

A column without entries whose bounds coincide was fixed twice (as a
close-bounds column and as an empty column), so its cost entered the
objective offset twice.
---
 src/explorers/SimpleReductions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..f4dca01 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,6 +691,12 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
+            // empty columns are fixed (once) by remove_empty_cols
+            if (col_sizes[ii] == 0)
+            {
+                continue;
+            }
+
             // no need to check return value since bounds are equal
             fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
         }
-- 
2.43.0


From af0aa6a2b99779629adebe9d3db218119a7650d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 02/14] fix: detect infeasible bounds in doubleton substitution

---
 src/core/Presolver.c    |  2 ++
 src/explorers/DtonsEq.c | 44 +++++++++++++++++++++++++++++------------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..be391df 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -481,6 +481,8 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_INFEASIBLE(status);
+
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..0daa02e 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -185,31 +185,37 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// the implied bounds on the variable that stays are inconsistent with its bounds.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
+    PresolveStatus status = UNCHANGED;
 
     if (same_sign)
     {
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(status);
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return status;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
         }
     }
     else
@@ -217,20 +223,25 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(status);
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return status;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            status |=
+                update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
         }
     }
+
+    return status;
 }
 
 #ifndef TESTING
@@ -701,8 +712,13 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        if (HAS_STATUS(modify_bounds(constraints, i, aij, aik, *row.rhs,
+                                     bounds[k].lb, bounds[k].ub, j, col_tags[k]),
+                       INFEASIBLE))
+        {
+            AT->nnz = A->nnz;
+            return INFEASIBLE;
+        }
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -752,6 +768,8 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
 
+        RETURN_IF_INFEASIBLE(temp);
+
         if (temp != REDUCED)
         {
             break;
@@ -767,6 +785,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
+    // infeasibility has been returned above
     return UNCHANGED;
 }
-- 
2.43.0


From 5dc7643c3177933006a58b98676c976f49f5169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 03/14] fix: recompute both activities when a coefficient
 change removes two infinities

---
 src/core/Activity.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..63fb92d 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,20 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (possibly both activities)
+    Altered_Activity altered = 0;
+
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return (altered == 0) ? NO_RECOMPUTE : altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From b6e8c300de09bce7fcca590e8df1a09bf1e085ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 04/14] fix: save the original tag of a merged parallel column

---
 src/explorers/Parallel_cols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..e690026 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -97,6 +97,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                ColTag tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +163,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From 2fabbab866675971328d6ac24f571382be75ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 05/14] fix: account for finitely fixed columns when a column
 is sent to infinity

---
 src/core/Postsolver.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..191d3c3 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -706,6 +706,18 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     {
         row = rows[i];
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+
+        // columns that have been fixed to a finite value but not yet been removed
+        // from A are retrieved after this column, so we account for them here
+        for (int ii = A->p[row].start; ii < A->p[row].start + row_sizes[row]; ++ii)
+        {
+            if (HAS_TAG(constraints->col_tags[A->i[ii]], C_TAG_FIXED) &&
+                !IS_ABS_INF(constraints->bounds[A->i[ii]].lb))
+            {
+                side -= A->x[ii] * constraints->bounds[A->i[ii]].lb;
+            }
+        }
+
         dVec_append(info->vals, side);
         dVec_append_array(info->vals, A->x + A->p[row].start,
                           (size_t) row_sizes[row]);
-- 
2.43.0


From f2d6d685f7315f02b0f24edd91a0fad2fa592df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 06/14] fix: remove cancellation residue from substituted costs

---
 src/core/Problem.c      | 7 +++++++
 src/explorers/DtonsEq.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/core/Problem.c b/src/core/Problem.c
index f9e792c..34f2d12 100644
--- a/src/core/Problem.c
+++ b/src/core/Problem.c
@@ -20,6 +20,7 @@
 #include "Constraints.h"
 #include "Matrix.h"
 #include "Memory_wrapper.h"
+#include "Numerics.h"
 #include "State.h"
 #include "Workspace.h"
 #include "utils.h"
@@ -104,6 +105,12 @@ void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len
     for (int i = 0; i < len; ++i)
     {
         obj->c[cols[i]] -= ratio * vals[i];
+
+        // remove the residue of a cancellation, since the sign of the cost matters
+        if (ABS(obj->c[cols[i]]) <= ZERO_TOL)
+        {
+            obj->c[cols[i]] = 0.0;
+        }
     }
 
     obj->offset += rhs * ratio;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 0daa02e..5f714fb 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -382,6 +382,13 @@ static inline void subst_col_in_obj_dton(Objective *obj, int stay, int subst,
                                          double aik, double aij, double rhs)
 {
     obj->c[stay] -= (aij / aik) * obj->c[subst];
+
+    // remove the residue of a cancellation, since the sign of the cost matters
+    if (obj->c[subst] != 0.0 && ABS(obj->c[stay]) <= ZERO_TOL)
+    {
+        obj->c[stay] = 0.0;
+    }
+
     obj->offset += (rhs / aik) * obj->c[subst];
 }
 
-- 
2.43.0


From 468ba719f4304b402a9b80695a828a13bb7c2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 07/14] fix: transfer the multiplier of an implied bound when a
 column singleton activates a row

---
 src/explorers/StonCols.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..b32fa14 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -373,6 +373,26 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
                              &row->i, 1);
 }
 
+/* When an inequality is turned into an equality since a column singleton is
+   implied free from above (or from below), the upper (or lower) bound of the column
+   may still be active in the reduced problem. Its multiplier must then be
+   transferred to the row, just as for any other bound implied by a row. */
+static inline void save_retrieval_implied_free(PostsolveInfo *postsolve_info,
+                                               const RowView *row,
+                                               const ColView *col, bool from_above)
+{
+    if (HAS_TAG(*col->tag, from_above ? C_TAG_UB_INF : C_TAG_LB_INF))
+    {
+        return;
+    }
+
+    save_retrieval_bound_change_no_row(
+        postsolve_info, col->k, from_above ? *col->ub : *col->lb,
+        from_above ? *col->lb : *col->ub, from_above);
+    save_retrieval_bound_change_the_row(postsolve_info, row->i, row->cols, row->vals,
+                                        (size_t) *row->len, 1);
+}
+
 static inline PresolveStatus
 process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
                      bool impl_free_from_above, bool impl_free_from_below,
@@ -497,6 +517,9 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
             update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, true);
         }
 
+        save_retrieval_implied_free(postsolve_info, row, col,
+                                    impl_free_from_above && ck < 0);
+
         assert(!is_rhs_inf);
         // update lhs = rhs
         *row->lhs = *row->rhs;
@@ -523,6 +546,9 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
             update_locks_ineq_to_eq(locks, row->vals, row->cols, *row->len, false);
         }
 
+        save_retrieval_implied_free(postsolve_info, row, col,
+                                    impl_free_from_above && ck < 0);
+
         assert(!is_lhs_inf);
         // update rhs = lhs
         *row->rhs = *row->lhs;
-- 
2.43.0


From c8aa6fa4c17d0ce01a05bf4816cbc88d9aa39240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 08/14] fix: give a column of a free row a finite value in
 postsolve

---
 src/core/Postsolver.c    | 9 +++++++--
 src/explorers/StonCols.c | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 191d3c3..b6b971b 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -707,6 +707,13 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
         row = rows[i];
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
 
+        // any value is fine for a free row
+        if (HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
+        {
+            side = 0.0;
+        }
+
         // columns that have been fixed to a finite value but not yet been removed
         // from A are retrieved after this column, so we account for them here
         for (int ii = A->p[row].start; ii < A->p[row].start + row_sizes[row]; ++ii)
@@ -725,8 +732,6 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
         iVec_append_array(info->indices, A->i + A->p[row].start,
                           (size_t) row_sizes[row]);
 
-        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
         assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
     }
 
diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index b32fa14..ba22e81 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -487,6 +487,12 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         {
             assert(ck == 0);
             new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+
+            // any value is fine for a free row
+            if (is_lhs_inf && is_rhs_inf)
+            {
+                new_side = 0.0;
+            }
         }
 
         // substitute variable in objective and mark it as substituted
-- 
2.43.0


From e19240432b052f6558d6d057c0485b98bf81d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 09/14] fix: check all parallel rows against a parallel
 equality

---
 src/explorers/Parallel_rows.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..3805c8a 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -389,6 +389,17 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     // ------------------------------------------------------------------------
     bool is_remaining_row_eq, is_rhs_inf_remaining_row, is_lhs_inf_remaining_row;
     int remaining_row_idx = bin[0];
+
+    // if there are equalities in the bin, the first one remains
+    for (int i = 0; i < bin_size; ++i)
+    {
+        if (HAS_TAG(row_tags[bin[i]], R_TAG_EQ))
+        {
+            remaining_row_idx = bin[i];
+            break;
+        }
+    }
+
     is_remaining_row_eq = HAS_TAG(row_tags[remaining_row_idx], R_TAG_EQ);
     is_rhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_RHS_INF);
     is_lhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_LHS_INF);
@@ -396,23 +407,14 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     remaining_row_new_lhs = lhs[remaining_row_idx];
     remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
 
-    for (int i = 1; i < bin_size; ++i)
+    for (int i = 0; i < bin_size; ++i)
     {
         int other_row_idx = bin[i];
         bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
 
-        if (!is_remaining_row_eq && is_other_row_eq)
+        if (other_row_idx == remaining_row_idx)
         {
-            // swap(remaining_row, other_row)
-            int temp = remaining_row_idx;
-            remaining_row_idx = other_row_idx;
-            other_row_idx = temp;
-
-            is_remaining_row_eq = true;
-            is_other_row_eq = false;
-            remaining_row_new_rhs = rhs[remaining_row_idx];
-            remaining_row_new_lhs = lhs[remaining_row_idx];
-            remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
+            continue;
         }
 
         assert(!(is_other_row_eq && !is_remaining_row_eq));
-- 
2.43.0


From f4128a9f5d82dbedb12d4059aad04cb2c7f5a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 10/14] fix: use the feasibility tolerance between a parallel
 equality and inequality

---
 src/explorers/Parallel_rows.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 3805c8a..c44d7af 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -441,14 +441,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         // -----------------------------------------------------------------------
         else if (is_remaining_row_eq)
         {
-            bool infeas_rhs =
-                !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
-            bool infeas_lhs =
-                !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+            bool infeas_rhs = !is_rhs_inf_other_row &&
+                              ((ratio > 0 && IS_GT_FEAS_TOL(remaining_row_new_rhs,
+                                                            other_row_rhs_scaled)) ||
+                               (ratio < 0 && IS_LT_FEAS_TOL(remaining_row_new_rhs,
+                                                            other_row_rhs_scaled)));
+            bool infeas_lhs = !is_lhs_inf_other_row &&
+                              ((ratio > 0 && IS_LT_FEAS_TOL(remaining_row_new_rhs,
+                                                            other_row_lhs_scaled)) ||
+                               (ratio < 0 && IS_GT_FEAS_TOL(remaining_row_new_rhs,
+                                                            other_row_lhs_scaled)));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From c01b153ad532445869b61657b9367c83c377fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 11/14] fix: do not read past the row pointers when copying a
 matrix

---
 src/core/Matrix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..b2e9fae 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,15 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (int i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From ffef99b00cbea145b96243ca0252166d01ad29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 12/14] fix: skip a negligible fill-in coefficient in doubleton
 substitution

---
 src/core/Matrix.c       |  8 ++------
 src/explorers/DtonsEq.c | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index b2e9fae..d15e566 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -487,13 +487,9 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero and the coefficient exists, we just have to shift
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 5f714fb..cd36239 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -294,6 +294,13 @@ static inline
     }
 
     double new_val = old_val - (aij / aik) * A->x[subst_idx];
+
+    // treat a negligible coefficient as zero everywhere, since it is not stored
+    if (ABS(new_val) <= ZERO_TOL)
+    {
+        new_val = 0.0;
+    }
+
     Old_and_new_coeff old_and_new_coeff;
     old_and_new_coeff.old_coeff_stay = old_val;
     old_and_new_coeff.old_coeff_subst = A->x[subst_idx];
@@ -330,13 +337,17 @@ static inline
     // if we get unexpected cancellation we should remove the coefficient,
     // otherwise we insert it
     // -------------------------------------------------------------------
-    if (ABS(new_val) <= ZERO_TOL)
+    if (new_val == 0.0)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        // nothing to remove if the variable that stays is not in the row
+        if (insertion != end && A->i[insertion] == j)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
-- 
2.43.0


From cb6dda326411af8a1db218b1b09e56310c5c58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 13/14] fix: recover the reduced cost of a merged column from
 its multiplier

---
 src/core/Postsolver.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index b6b971b..3964d96 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -269,25 +269,13 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     sol->x[j] = xj_val;
     sol->x[k] = xk_val;
 
-    // dual postsolve
-    bool is_xj_at_bound =
-        (!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xj_val, lb_j)) ||
-        (!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xj_val, ub_j));
-    bool is_xk_at_bound =
-        (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
-        (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
-
-    if (is_xj_at_bound && is_xk_at_bound)
-    {
-        sol->z[k] = ratio * sol->z[j];
-    }
-    else
-    {
-        sol->z[k] = 0.0;
-    }
+    // dual postsolve: ck = ratio * cj and ak = ratio * aj, so zk = ck - ak^T y is
+    // the same multiple of zj, whether or not the columns are at their bounds
+    sol->z[k] = ratio * sol->z[j];
 
 #ifndef NDEBUG
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
+    SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[k]);
 
     // if the multiplier is positive the variable should be at its lower bound
     if (sol->z[j] > 0)
-- 
2.43.0


From e6054dc3b59ac53655fcbfe9312d95939fee3d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 14/14] fix: do not read past the end of a row when removing a
 coefficient

---
 src/core/Matrix.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index d15e566..5723457 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -518,8 +518,12 @@ void remove_coeff(RowView *row, int col)
             shift = 1;
         }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+        // the last entry has no successor within the row
+        if (i + shift < len)
+        {
+            row->vals[i] = row->vals[i + shift];
+            row->cols[i] = row->cols[i + shift];
+        }
     }
 
     assert(shift != 0);
-- 
2.43.0

