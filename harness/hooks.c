/* Runtime monitor of the internal representation (bounded stand-in). Linked
   with -Wl,--wrap=<explorer>; after each explorer it re-derives the redundant
   data structures from the row-wise matrix and compares. */
#include "Activity.h"
#include "Bounds.h"
#include "Constraints.h"
#include "CoreTransformations.h"
#include "Locks.h"
#include "Matrix.h"
#include "Numerics.h"
#include "Problem.h"
#include "State.h"
#include "Workspace.h"
#include "glbopts.h"
#include "iVec.h"
#include "PSLP_status.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* kinds: 1 storage (A/AT), 2 activities, 4 locks, 8 lists/tags */
int hook_enable = 0, hook_kind = 0, hook_dead = 0; /* dead: a verdict was reached */
long hook_calls = 0, hook_checks[4];
char hook_msg[512];
static void rep(int kind, const char *where, const char *what, long a, long b, double u, double v)
{
    if (!(hook_enable & kind)) return;
    if (hook_kind) return;
    hook_kind = kind;
    snprintf(hook_msg, sizeof hook_msg, "%s: %s (index %ld, %ld; %.17g vs %.17g)", where, what, a, b, u, v);
}
static void check_storage(const Constraints *c, const char *w)
{
    const Matrix *A = c->A, *T = c->AT;
    hook_checks[0]++;
    for (int pass = 0; pass < 2; ++pass)
    {
        const Matrix *M = pass ? T : A, *N = pass ? A : T;
        const int *sz = pass ? c->state->col_sizes : c->state->row_sizes;
        size_t nnz = 0;
        for (size_t r = 0; r < M->m; ++r)
        {
            int s = M->p[r].start, e = M->p[r].end;
            int inact = pass ? HAS_TAG(c->col_tags[r], C_TAG_INACTIVE) : HAS_TAG(c->row_tags[r], R_TAG_INACTIVE);
            if (s < 0 || e < s || (size_t) e > M->n_alloc || M->p[r + 1].start < e) { rep(1, w, pass ? "column range out of order" : "row range out of order", (long) r, s, e, M->p[r + 1].start); return; }
            if (inact ? (sz[r] >= 0 || s != e) : sz[r] != e - s) { rep(1, w, pass ? "column size wrong" : "row size wrong", (long) r, sz[r], e - s, inact); return; }
            nnz += (size_t) (e - s);
            for (int q = s; q < e; ++q)
            {
                int k = M->i[q];
                if (k < 0 || (size_t) k >= N->m || (q > s && M->i[q - 1] >= k)) { rep(1, w, pass ? "row index out of order in column" : "column index out of order in row", (long) r, k, q, 0); return; }
                if (M->x[q] == 0 || !isfinite(M->x[q])) { rep(1, w, "zero or non-finite stored coefficient", (long) r, k, M->x[q], 0); return; }
                int f = 0;
                for (int t = N->p[k].start; t < N->p[k].end; ++t)
                    if (N->i[t] == (int) r) { f = 1; if (fabs(N->x[t] - M->x[q]) > 1e-9 * fabs(M->x[q])) { rep(1, w, "row-wise and column-wise coefficient differ", (long) r, k, M->x[q], N->x[t]); return; } }
                if (!f) { rep(1, w, pass ? "entry of column missing in row-wise copy" : "entry of row missing in column-wise copy", (long) r, k, M->x[q], 0); return; }
            }
        }
        if (nnz != M->nnz) { rep(1, w, "nonzero count wrong", (long) nnz, (long) M->nnz, pass, 0); return; }
    }
}
static void check_acts(const Constraints *c, const char *w)
{
    const Matrix *A = c->A; const Activity *a = c->state->activities;
    hook_checks[1]++;
    for (size_t r = 0; r < A->m; ++r)
    {
        if (HAS_TAG(c->row_tags[r], R_TAG_INACTIVE)) continue;
        int nmin = 0, nmax = 0; double mn = 0, mx = 0, sc = 1;
        for (int q = A->p[r].start; q < A->p[r].end; ++q)
        {
            int k = A->i[q]; double v = A->x[q];
            if (HAS_TAG(c->col_tags[k], C_TAG_INACTIVE)) continue;
            double l = c->bounds[k].lb, u = c->bounds[k].ub;
            double lo = v > 0 ? l : u, hi = v > 0 ? u : l;
            if (isinf(lo)) nmin++; else { mn += v * lo; sc += fabs(v * lo); }
            if (isinf(hi)) nmax++; else { mx += v * hi; sc += fabs(v * hi); }
        }
        if (nmin != a[r].n_inf_min) { rep(2, w, "count of unbounded contributions to minimum wrong", (long) r, 0, a[r].n_inf_min, nmin); return; }
        if (nmax != a[r].n_inf_max) { rep(2, w, "count of unbounded contributions to maximum wrong", (long) r, 0, a[r].n_inf_max, nmax); return; }
        if (nmin == 0 && !(a[r].min <= mn + 1e-5 * sc)) { rep(2, w, "minimum activity too high", (long) r, 0, a[r].min, mn); return; }
        if (nmax == 0 && !(a[r].max >= mx - 1e-5 * sc)) { rep(2, w, "maximum activity too low", (long) r, 0, a[r].max, mx); return; }
    }
}
static void check_locks(const Constraints *c, const char *w)
{
    const Matrix *T = c->AT; const Lock *L = c->state->col_locks;
    hook_checks[2]++;
    for (size_t k = 0; k < T->m; ++k)
    {
        if (HAS_TAG(c->col_tags[k], C_TAG_INACTIVE)) continue;
        int up = 0, dn = 0;
        for (int q = T->p[k].start; q < T->p[k].end; ++q)
        {
            int r = T->i[q]; if (HAS_TAG(c->row_tags[r], R_TAG_INACTIVE)) continue;
            int hasr = !isinf(c->rhs[r]), hasl = !isinf(c->lhs[r]);
            if (T->x[q] > 0) { up += hasr; dn += hasl; } else { up += hasl; dn += hasr; }
        }
        if (up != L[k].up) { rep(4, w, "count of rows blocking an increase wrong", (long) k, 0, L[k].up, up); return; }
        if (dn != L[k].down) { rep(4, w, "count of rows blocking a decrease wrong", (long) k, 0, L[k].down, dn); return; }
    }
}
static int has(const iVec *v, int x) { for (size_t i = 0; i < v->len; ++i) if (v->data[i] == x) return 1; return 0; }
static void check_lists(const Constraints *c, const char *w)
{
    const State *s = c->state;
    hook_checks[3]++;
    for (size_t r = 0; r < c->A->m; ++r)
    {
        RowTag t = c->row_tags[r]; int sz = s->row_sizes[r];
        if (HAS_TAG(t, R_TAG_INACTIVE)) continue;
        if (sz == 0 && !has(s->empty_rows, (int) r)) { rep(8, w, "empty row not queued", (long) r, 0, 0, 0); return; }
        if (sz == 1 && !has(s->ston_rows, (int) r)) { rep(8, w, "singleton row not queued", (long) r, 0, 0, 0); return; }
        if (sz == 2 && HAS_TAG(t, R_TAG_EQ) && !has(s->dton_rows, (int) r)) { rep(8, w, "doubleton equality not queued", (long) r, 0, 0, 0); return; }
        if (HAS_TAG(t, R_TAG_LHS_INF) != (c->lhs[r] == -INFINITY) || HAS_TAG(t, R_TAG_RHS_INF) != (c->rhs[r] == INFINITY)) { rep(8, w, "row side tag wrong", (long) r, t, c->lhs[r], c->rhs[r]); return; }
        if (c->lhs[r] == c->rhs[r] && !HAS_TAG(t, R_TAG_EQ)) { rep(8, w, "equality row not tagged", (long) r, t, c->lhs[r], c->rhs[r]); return; }
        if (HAS_TAG(t, R_TAG_EQ) && c->lhs[r] != c->rhs[r]) { rep(8, w, "inequality row tagged as equality", (long) r, t, c->lhs[r], c->rhs[r]); return; }
    }
    for (size_t k = 0; k < c->AT->m; ++k)
    {
        ColTag t = c->col_tags[k]; int sz = s->col_sizes[k];
        if (HAS_TAG(t, C_TAG_INACTIVE)) continue;
        if (sz == 0 && !has(s->empty_cols, (int) k)) { rep(8, w, "empty column not queued", (long) k, 0, 0, 0); return; }
        if (sz == 1 && !has(s->ston_cols, (int) k)) { rep(8, w, "singleton column not queued", (long) k, 0, 0, 0); return; }
        if (HAS_TAG(t, C_TAG_LB_INF) != (c->bounds[k].lb == -INFINITY) || HAS_TAG(t, C_TAG_UB_INF) != (c->bounds[k].ub == INFINITY)) { rep(8, w, "column bound tag wrong", (long) k, t, c->bounds[k].lb, c->bounds[k].ub); return; }
    }
}
static void all(const Constraints *c, const char *w)
{
    hook_calls++;
    if (hook_kind || hook_dead || !hook_enable) return;
    const State *s = c->state;
    if (s->rows_to_delete->len || s->fixed_cols_to_delete->len || s->sub_cols_to_delete->len) return;
    if (hook_enable & 1) check_storage(c, w);
    if (hook_enable & 2) check_acts(c, w);
    if (hook_enable & 4) check_locks(c, w);
    if (hook_enable & 8) check_lists(c, w);
}
#define WRAP_P(name)                                                                \
    PresolveStatus __real_##name(Problem *);                                        \
    PresolveStatus __wrap_##name(Problem *p)                                        \
    {                                                                               \
        all(p->constraints, "before " #name);                                       \
        PresolveStatus s = __real_##name(p);                                        \
        if (s == UNCHANGED || s == REDUCED) all(p->constraints, "after " #name); else hook_dead = 1;    \
        return s;                                                                   \
    }
#define WRAP_C(name)                                                                \
    PresolveStatus __real_##name(Constraints *);                                    \
    PresolveStatus __wrap_##name(Constraints *p)                                    \
    {                                                                               \
        all(p, "before " #name);                                                    \
        PresolveStatus s = __real_##name(p);                                        \
        if (s == UNCHANGED || s == REDUCED) all(p, "after " #name); else hook_dead = 1;                 \
        return s;                                                                   \
    }
WRAP_P(remove_ston_cols)
WRAP_P(remove_ston_rows)
WRAP_P(remove_empty_cols)
WRAP_P(simple_dual_fix)
WRAP_P(check_activities)
WRAP_P(remove_parallel_cols)
WRAP_P(remove_variables_with_close_bounds)
WRAP_C(remove_empty_rows)
WRAP_C(remove_parallel_rows)
PresolveStatus __real_remove_dton_eq_rows(Problem *, int);
PresolveStatus __wrap_remove_dton_eq_rows(Problem *p, int k)
{
    all(p->constraints, "before remove_dton_eq_rows");
    PresolveStatus s = __real_remove_dton_eq_rows(p, k);
    if (s == UNCHANGED || s == REDUCED) all(p->constraints, "after remove_dton_eq_rows"); else hook_dead = 1;
    return s;
}
PresolveStatus __real_propagate_primal(Problem *, bool);
PresolveStatus __wrap_propagate_primal(Problem *p, bool k)
{
    all(p->constraints, "before propagate_primal");
    PresolveStatus s = __real_propagate_primal(p, k);
    if (s == UNCHANGED || s == REDUCED) all(p->constraints, "after propagate_primal"); else hook_dead = 1;
    return s;
}
void __real_problem_clean(Problem *, bool);
void __wrap_problem_clean(Problem *p, bool k)
{
    /* bounds may have been relaxed here without maintaining the activities */
    int e = hook_enable;
    hook_enable &= 5;
    all(p->constraints, "before problem_clean");
    __real_problem_clean(p, k);
    all(p->constraints, "after problem_clean");
    hook_enable = e;
}
