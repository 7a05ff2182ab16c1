"""Columns with one entry (C16, C06, C21, C22, C01-C04): substituted when implied free, fixed by the sign of the cost, an inequality turned into an equation."""
from spec import *
import z3
from matrix import Mtx
from core import *
from simple import DEL, inner_frame, ALL8
from control import local
from postsolve import SUBC, EQI, size
from parcols import rec_is
from locks import oneif
FILE = "StonCols.c"
SB = z3.BitVecVal
class RowV:
    """a row given by a view"""
    def __init__(s, c, p):
        s.c, s.p = c, p; g = lambda f: c.get(p, f); s.i = g("i"); s.pvals, s.pcols, s.plen, s.prng, s.plhs, s.prhs, s.ptag = (g(f) for f in ("vals", "cols", "len", "range", "lhs", "rhs", "tag")); s.n, s.lhs, s.rhs, s.tag = (c.get(x) for x in (s.plen, s.plhs, s.prhs, s.ptag)); s.v, s.k = c.arr(s.pvals), c.arr(s.pcols)
    def modifies(s, when=None):
        for x in (s.plen, s.plhs, s.prhs, s.ptag): s.c.modifies(x, when=when)
        s.c.modifies(s.prng, "end", when=when)
        for x in (s.pvals, s.pcols): s.c.modifies(x, lo=0, hi=s.n, when=when)
    def now(s, c=None): return RowV(c or s.c, s.p)
class Without:
    """the inverse of a list after the entry at place p has been taken out"""
    def __init__(s, inv, p): s.inv, s.p = inv, p
    def __getitem__(s, x): return simp(s.inv[x] - If(s.inv[x] > s.p, 1, 0))
def wellrow(c, r):
    """entries nonzero, columns listed once; returns the inverse"""
    inv = c.ghost("inverse", IA); c.requires(And(r.n >= 1), "the row is not empty"); c.requires(c.every(r.k, 0, r.n, lambda t, q: And(inv[q] == t, r.v[t] != 0)), "columns occur once, coefficients nonzero"); return inv
def act_of(c, act): return [c.get(act, f) for f in ACT[:4]]
def tags_of(c, ct, k): T = c.ghost("tags", TAGS); c.requires(And(has(T[k], LBI) == has(ct, LBI), has(T[k], UBI) == has(ct, UBI)), "tags of the column"); return F(T)
def lock_effect(c, locks, lk, r, inv, hi, left, sign):
    """the opposing counts of the columns of the row change as the left (right) side is dropped (-1) or added (+1)"""
    N = c.arr(locks); q = z3.Int("q?any" if c.bmc else "q?"); inr = And(0 <= inv[q], inv[q] < hi, r.k[inv[q]] == q); x = r.v[inv[q]]
    f = And(N.up[q] == lk.up[q] + If(inr, oneif((x < 0) if left else (x > 0)) * sign, 0), N.down[q] == lk.down[q] + If(inr, oneif((x > 0) if left else (x < 0)) * sign, 0)); return f if c.bmc else z3.ForAll([q], f)
def taken_out(r, r1, p): n = simp(r.n - 1); sh = lambda j: If(j >= p, 1, 0); return And(r1.n == n, r.c.forall(0, n, lambda j: And(r1.v[j] == r.v[j + sh(j)], r1.k[j] == r.k[j + sh(j)])))
def counts(r, a, n): return And(a[0] == r.nmin(0, n), a[1] == r.nmax(0, n))
def slack(r, a, n): return [If(a[0] == 0, r.smin(0, n) - a[2], 0), If(a[1] == 0, a[3] - r.smax(0, n), 0)]
def keeps_act(c, r, a, n, s, extra=(0, 0), was=None, when=TRUE):
    """counts stay exact, the activities are off by as much as before (nothing when they were exact or are computed anew)"""
    ex = [If(was[i] == 0, extra[i], 0) if was else 0 for i in (0, 1)]
    c.ensures("counts of unbounded contributions exact for the shorter row", Implies(when, counts(r, a, n))); c.ensures("minimum activity follows", Implies(And(when, a[0] == 0), a[2] == r.smin(0, n) - s[0] - ex[0])); c.ensures("maximum activity follows", Implies(And(when, a[1] == 0), a[3] == r.smax(0, n) + s[1] + ex[1]))
def one_sided(c, r, N, p, inv, T, B, lb, ub, a, ck, k, above, locks, lk, act, S0, nnz, z0, T0, info, when=TRUE):
    """an equation loses a column that is implied free from above only (from below only)"""
    b = lb if above else ub; left = (a > 0) if above else (a < 0); ens = lambda n, f: c.ensures(n, Implies(when, f))
    ens("the entry leaves the row", taken_out(r, N, p)); ens("one entry less in the matrix", c.get(nnz) == z0 - 1)
    ens("the side that stays loses the bound's contribution, the other one goes", And(N.lhs == If(left, -INF, r.lhs - b * a), N.rhs == If(left, r.rhs - b * a, INF), eqt(N.tag, If(left, SB(LHSI, 8), SB(RHSI, 8)))))
    for w, s in ((True, left), (False, Not(left))): ens(f"counts of opposing rows, {'left' if w else 'right'} side dropped", Implies(s, lock_effect(c, locks, lk, N, Without(inv, p), simp(r.n - 1), w, -1)))
    keeps_act(c, Row(c, N.v, N.k, T, B.lb, B.ub), act_of(c, act), simp(r.n - 1), S0, when=when)
    T1, e = record(c, T0, info, EQI, [r.i], [ck / a], when=when); T1, _ = record(c, T0, info, SUBC, [k, (r.k, r.n), r.i], [r.rhs, (r.v, r.n), z3.RealVal(0)], k=1, base=e, when=when); ens("two records more", And(T1.n == T0.n + 2, T1.wf()))
def handle(name, above):
    @contract(FILE, name, ["C16", "C21", "C22", "C02", "C03", "C04"])
    def _(c):
        row, k, a, lb, ub, ctag, act, locks, nnz, bounds, info, ck = c.args; r = RowV(c, row); B = c.arr(bounds); ct = c.get(ctag); T0 = Tape(c, info); lk = c.arr(locks); z0 = c.get(nnz); p = c.ghost("position"); inv = wellrow(c, r); c.requires(T0.wf(), "tape well formed")
        c.requires(And(0 <= p, p < r.n, r.k[p] == k, r.v[p] == a, inv[k] == p), "the entry of the column"); c.requires(And(B.lb[k] == lb, B.ub[k] == ub, Not(has(ct, LBI if above else UBI))), "bounds of the column"); T = tags_of(c, ct, k); c.removed(p)
        r0 = Row(c, r.v, r.k, T, B.lb, B.ub); A0 = act_of(c, act); S0 = slack(r0, A0, r.n); c.requires(counts(r0, A0, r.n), "counts of unbounded contributions exact")
        r.modifies(); c.modifies(locks, lo=0, hi=None); c.modifies(nnz); T0.grows(2, r.n + 3)
        for f in ACT[:4]: c.modifies(act, f)
        left = (a > 0) if above else (a < 0)          # the side that goes
        c.at_call("remove_coeff", lambda L, x: dict(position=p)); c.at_call("update_locks_eq_to_ineq", lambda L, x: dict(inverse=Without(inv, p)))
        yield
        N = r.now(); one_sided(c, r, N, p, inv, T, B, lb, ub, a, ck, k, above, locks, lk, act, S0, nnz, z0, T0, info)
handle("handle_impl_free_from_above_eq", True); handle("handle_impl_free_from_below_eq", False)
class ColV:
    """a column given by a view"""
    def __init__(s, c, p):
        s.c, s.p = c, p; g = lambda f: c.get(p, f); s.k = g("k"); s.plen, s.prng, s.plb, s.pub, s.ptag = (g(f) for f in ("len", "range", "lb", "ub", "tag")); s.n, s.lb, s.ub, s.tag = (c.get(x) for x in (s.plen, s.plb, s.pub, s.ptag)); s.start, s.end = c.get(s.prng, "start"), c.get(s.prng, "end")
    def gone(s, bit, when, c=None):
        c = c or s.c; c.ensures("the column is marked, inactive and empty", Implies(when, And(eqt(c.get(s.ptag), bor(s.tag, bit)), c.get(s.plen) == -1, c.get(s.prng, "end") == s.start)))
    def modifies(s, when=None): s.c.modifies(s.ptag, when=when); s.c.modifies(s.plen, when=when); s.c.modifies(s.prng, "end", when=when)
@contract(FILE, "fix_col_ston", ["C16", "C21", "C01", "C02", "C03"])
def _(c):
    val, a, row, col, act, obj, nnz, bounds, info = c.args; r, k = RowV(c, row), ColV(c, col); B = c.arr(bounds); cost = c.arr(c.get(obj, "c")); o0 = c.get(obj, "offset"); T0 = Tape(c, info); z0 = c.get(nnz); p = c.ghost("position"); inv = wellrow(c, r); c.requires(T0.wf(), "tape well formed")
    c.requires(And(0 <= p, p < r.n, r.k[p] == k.k, r.v[p] == a, inv[k.k] == p), "the entry of the column"); c.requires(Or(And(Not(has(k.tag, LBI)), val == B.lb[k.k]), And(Not(has(k.tag, UBI)), val == B.ub[k.k])), "the value is a finite bound"); T = tags_of(c, k.tag, k.k); c.removed(p)
    r0 = Row(c, r.v, r.k, T, B.lb, B.ub); A0 = act_of(c, act); S0 = slack(r0, A0, r.n); c.requires(counts(r0, A0, r.n), "counts of unbounded contributions exact"); lb, ub = B.lb[k.k], B.ub[k.k]; r.modifies(); k.modifies(); c.modifies(nnz); c.modifies(obj, "offset"); T0.grows(1, 3)
    for f in ACT[:4]: c.modifies(act, f)
    c.at_call("remove_coeff", lambda L, x: dict(position=p))
    yield
    N = r.now(); c.ensures("the entry leaves the row", taken_out(r, N, p)); c.ensures("one entry less in the matrix", c.get(nnz) == z0 - 1); k.gone(FIXED, TRUE)
    c.ensures("finite sides lose the fixed variable", And(N.lhs == If(has(r.tag, LHSI), r.lhs, r.lhs - a * val), N.rhs == If(has(r.tag, RHSI), r.rhs, r.rhs - a * val), eqt(N.tag, r.tag))); c.ensures("offset takes the variable's cost", c.get(obj, "offset") == o0 + cost[k.k] * val)
    keeps_act(c, Row(c, N.v, N.k, T, B.lb, B.ub), act_of(c, act), simp(r.n - 1), S0, (a * val - If(a > 0, a * lb, a * ub), If(a > 0, a * ub, a * lb) - a * val), A0)
    T1, _ = record(c, T0, info, FC, [k.k, None, r.i], [val, cost[k.k], a]); c.ensures("one record more", And(T1.n == T0.n + 1, T1.wf()))
def cost_effect(c, obj, c0, o0, r, k, a, side, when):
    """the row is used to eliminate the column from the objective"""
    q = c.any("entry"); x = c.any("other_column"); c1 = c.arr(c.get(obj, "c")); tol = z3.RealVal("1/10000000000"); new = (lambda y: If(absr(y) <= tol, 0, y))(c0[r.k[q]] - c0[k] / a * r.v[q])
    c.ensures("offset", Implies(when, c.get(obj, "offset") == If(c0[k] == 0, o0, o0 + side * c0[k] / a))); c.ensures_any("cost of every column of the row", [q], Implies(And(when, 0 <= q, q < r.n), c1[r.k[q]] == If(c0[k] == 0, c0[r.k[q]], new)))
    c.ensures_any("other costs unchanged", [x], Implies(And(when, c.forall(0, r.n, lambda t: r.k[t] != x)), c1[x] == c0[x]))
def listed(c, L0, when, i, name):
    L1 = L0.now(); c.ensures(name, If(when, And(L1.n == L0.n + 1, L1.a[L0.n] == i), L1.n == L0.n)); c.ensures("list well formed", L1.wf())
def row_gone(c, r, rows0, when):
    listed(c, rows0, when, r.i, "the row is listed for removal"); c.ensures("the row is inactive", Implies(when, eqt(r.now().tag, bor(r.tag, RIN))))
@contract(FILE, "process_colston_eq", ["C16", "C21", "C22", "C01", "C02", "C03", "C04"], bmc=(2,), cases=4)
def _(c):
    row, col, obj, a, above, below, act, locks, rows, nnz, bounds, srows, drows, info = c.args; above, below = tobool(above), tobool(below); r, K = RowV(c, row), ColV(c, col); k = K.k; B = c.arr(bounds); cost = c.arr(c.get(obj, "c")); o0 = c.get(obj, "offset"); T0 = Tape(c, info); z0 = c.get(nnz); lk = c.arr(locks); p = c.ghost("position"); inv = wellrow(c, r); R0, S0, D0 = Lst(c, rows), Lst(c, srows), Lst(c, drows); ck = cost[k]
    for x in (T0, R0, S0, D0): c.requires(x.wf(), "lists well formed")
    c.requires(And(0 <= p, p < r.n, r.k[p] == k, r.v[p] == a, inv[k] == p, r.n >= 2), "the entry of the column"); c.requires(And(r.lhs == r.rhs, has(r.tag, EQ), Not(has(r.tag, 11))), "an equation"); c.requires(And(B.lb[k] == K.lb, B.ub[k] == K.ub, Implies(has(K.tag, UBI), above), Implies(has(K.tag, LBI), below)), "bounds of the column"); T = tags_of(c, K.tag, k); c.removed(p)
    r0 = Row(c, r.v, r.k, T, B.lb, B.ub); A0 = act_of(c, act); s0 = slack(r0, A0, r.n); c.requires(counts(r0, A0, r.n), "counts of unbounded contributions exact")
    c.cases(*[And(above if i & 1 else Not(above), below if i & 2 else Not(below)) for i in range(4)])
    any_, both = simp(Or(above, below)), simp(And(above, below)); half = simp(And(any_, Not(both))); r.modifies(any_); K.modifies(any_); c.modifies(nnz, when=half); c.modifies(locks, lo=0, hi=None, when=half); c.modifies(obj, "offset", when=any_); c.modifies(c.get(obj, "c"), lo=0, hi=None, when=any_); T0.grows(2, r.n + 3, any_); R0.grows(1, both); S0.grows(1, half); D0.grows(1, z3.BoolVal(False))
    for f in ACT[:4]: c.modifies(act, f, when=half)
    for h in ("handle_impl_free_from_above_eq", "handle_impl_free_from_below_eq"): c.at_call(h, lambda L, x: dict(position=p, inverse=inv, tags=T.a))
    yield
    c.ensures("nothing to do exactly when the column is implied free from no side", rc(c) == If(any_, RED, UNCH)); N = r.now()
    cost_effect(c, obj, cost, o0, r, k, a, r.rhs, any_); K.gone(SUBST, any_); row_gone(c, r, R0, both)
    _, e = record(c, T0, info, SUBC, [k, (r.k, r.n), r.i], [r.rhs, (r.v, r.n), ck], when=both); T1, _ = record(c, T0, info, DROW, [r.i], [ck / a], k=1, base=e, when=both); c.ensures("two records", Implies(any_, T1.n == T0.n + 2)); c.ensures("tape well formed", T1.wf())
    one_sided(c, r, N, p, inv, T, B, K.lb, K.ub, a, ck, k, True, locks, lk, act, s0, nnz, z0, T0, info, simp(And(half, above))); one_sided(c, r, N, p, inv, T, B, K.lb, K.ub, a, ck, k, False, locks, lk, act, s0, nnz, z0, T0, info, simp(And(half, below)))
    listed(c, S0, simp(And(half, r.n == 2)), r.i, "a row left with one entry is listed"); listed(c, D0, z3.BoolVal(False), r.i, "no new equation with two entries")
    c.ensures("tag of the row otherwise", Implies(both, And(N.n == r.n, N.lhs == r.lhs, N.rhs == r.rhs)))
@contract(FILE, "process_colston_ineq", ["C16", "C06", "C21", "C22", "C01", "C02", "C03", "C04"], bmc=(2,), cases=8)
def _(c):
    row, col, obj, a, above, below, act, locks, rows, nnz, bounds, srows, drows, info = c.args; above, below = tobool(above), tobool(below); r, K = RowV(c, row), ColV(c, col); k = K.k; B = c.arr(bounds); cost = c.arr(c.get(obj, "c")); o0 = c.get(obj, "offset"); T0 = Tape(c, info); z0 = c.get(nnz); lk = c.arr(locks); p = c.ghost("position"); inv = wellrow(c, r); R0, S0, D0 = Lst(c, rows), Lst(c, srows), Lst(c, drows); ck = cost[k]
    for x in (T0, R0, S0, D0): c.requires(x.wf(), "lists well formed")
    c.requires(And(0 <= p, p < r.n, r.k[p] == k, r.v[p] == a, inv[k] == p, r.n >= 2), "the entry of the column"); c.requires(And(Not(has(r.tag, EQ)), Not(has(r.tag, RIN))), "an inequality"); c.requires(And(B.lb[k] == K.lb, B.ub[k] == K.ub, Implies(has(K.tag, UBI), above), Implies(has(K.tag, LBI), below)), "bounds of the column"); T = tags_of(c, K.tag, k); c.removed(p)
    r0 = Row(c, r.v, r.k, T, B.lb, B.ub); A0 = act_of(c, act); s0 = slack(r0, A0, r.n); c.requires(counts(r0, A0, r.n), "counts of unbounded contributions exact")
    li, ri, lbi, ubi = has(r.tag, LHSI), has(r.tag, RHSI), has(K.tag, LBI), has(K.tag, UBI)
    dl = And(ck > 0, Or(And(a > 0, li), And(a < 0, ri))); du = And(ck < 0, Or(And(a < 0, li), And(a > 0, ri)))          # no row and no cost opposes the lower (upper) bound
    rest = And(Not(dl), Not(du)); free = And(rest, above, below); pushl, pushr = ck * a > 0, ck * a < 0; pushl, pushr = Or(And(ck > 0, a > 0), And(ck < 0, a < 0)), Or(And(ck > 0, a < 0), And(ck < 0, a > 0))
    upper = And(rest, Not(free), Or(And(ck < 0, a > 0, above), And(ck > 0, a < 0, below))); lower = And(rest, Not(free), Or(And(ck > 0, a > 0, below), And(ck < 0, a < 0, above))); none = Or(And(dl, lbi), And(du, ubi)); fix = And(Or(dl, du), Not(none)); c.cases(And(dl, lbi), And(dl, Not(lbi)), And(du, ubi), And(du, Not(ubi)), free, upper, lower, And(rest, Not(free), Not(upper), Not(lower)))
    val = If(dl, K.lb, K.ub); eqn = Or(upper, lower); did = Or(fix, free, eqn); r.modifies(did); K.modifies(Or(fix, free)); c.modifies(nnz, when=fix); c.modifies(locks, lo=0, hi=None, when=Or(And(upper, li), And(lower, ri))); c.modifies(obj, "offset", when=Or(fix, free)); c.modifies(c.get(obj, "c"), lo=0, hi=None, when=free); T0.grows(2, r.n + 4, did); R0.grows(1, free); S0.grows(1, fix); D0.grows(1, eqn)
    for f in ACT[:4]: c.modifies(act, f, when=fix)
    c.at_call("fix_col_ston", lambda L, x: dict(position=p, inverse=inv, tags=T.a)); c.at_call("update_locks_ineq_to_eq", lambda L, x: dict(inverse=inv))
    yield
    st = rc(c); c.ensures("unbounded or infeasible exactly when the cost pushes to a missing bound or side", (st == UNB) == none) ; c.ensures("changed exactly when something applies", And(Implies(did, st == RED), Implies(Not(Or(did, none)), st == UNCH))); N = r.now(); n1 = simp(r.n - 1); T1 = Tape(c, info); c.ensures("tape well formed", T1.wf())
    # fixed at the bound nothing opposes
    e = lambda n, w, f: c.ensures(n, Implies(w, f))
    e("fixed: the entry leaves the row", fix, And(taken_out(r, N, p), c.get(nnz) == z0 - 1)); K.gone(FIXED, fix); e("fixed: finite sides lose the fixed variable", fix, And(N.lhs == If(li, r.lhs, r.lhs - a * val), N.rhs == If(ri, r.rhs, r.rhs - a * val), eqt(N.tag, r.tag))); e("fixed: offset takes the variable's cost", fix, c.get(obj, "offset") == o0 + ck * val)
    record(c, T0, info, FC, [k, None, r.i], [val, ck, a], when=fix); e("fixed: one record", fix, T1.n == T0.n + 1); keeps_act(c, Row(c, N.v, N.k, T, B.lb, B.ub), act_of(c, act), n1, s0, (a * val - If(a > 0, a * K.lb, a * K.ub), If(a > 0, a * K.ub, a * K.lb) - a * val), A0, fix)
    listed(c, S0, simp(And(fix, r.n == 2)), r.i, "a row left with one entry is listed")
    # substituted through the side that is active
    side = If(pushl, r.lhs, If(pushr, r.rhs, If(And(li, ri), 0, If(li, r.rhs, r.lhs)))); e("substituted: that side exists", free, Or(And(li, ri, ck == 0), And(Not(li), side == r.lhs), And(Not(ri), side == r.rhs)))
    cost_effect(c, obj, cost, o0, r, k, a, side, free); K.gone(SUBST, free); row_gone(c, r, R0, free); e("substituted: sides and entries stay", free, And(N.n == r.n, N.lhs == r.lhs, N.rhs == r.rhs))
    _, en = record(c, T0, info, SUBC, [k, (r.k, r.n), r.i], [side, (r.v, r.n), ck], when=free); record(c, T0, info, DROW, [r.i], [ck / a], k=1, base=en, when=free); e("substituted: two records", free, T1.n == T0.n + 2)
    # the row becomes an equation
    up_, lo_ = And(eqn, ck < 0), And(eqn, ck > 0); b_inf = If(ck < 0, ubi, lbi); e("the side the cost pushes to becomes an equation", eqn, And(N.lhs == If(upper, r.rhs, r.lhs), N.rhs == If(upper, r.rhs, r.lhs), eqt(N.tag, SB(EQ, 8)), N.n == r.n)); e("that side exists", eqn, If(upper, Not(ri), Not(li)))
    for w, s, was in ((True, upper, li), (False, lower, ri)): e(f"counts of opposing rows, {'left' if w else 'right'} side added", And(s, was), lock_effect(c, locks, lk, r, inv, r.n, w, 1))
    w = simp(And(eqn, Not(b_inf))); _, en = record(c, T0, info, BNO, [k, If(ck < 0, 1, 0)], [If(ck < 0, K.ub, K.lb), If(ck < 0, K.lb, K.ub)], when=w); record(c, T0, info, BTHE, [r.i, (r.k, r.n)], [z3.RealVal(1), (r.v, r.n)], k=1, base=en, when=w); e("the implied bound is recorded when there is one", eqn, T1.n == T0.n + If(b_inf, 0, 2))
    listed(c, D0, simp(And(eqn, r.n == 2)), r.i, "a new equation with two entries is listed")
# ------------------------------------------------------------------ the loop over all singleton columns
@contract(FILE, "refresh_ston_cols", ["C16", "C26"], safe=True)
def _(c):
    sizes, v = c.args; n, d = c.get(v, "len"), c.get(v, "data"); c.valid(v, 1); c.valid(d, n); a, sz = c.arr(d), c.arr(sizes); c.requires(And(0 <= n, n < 2**31, n <= c.get(v, "capacity"))); N = c.rlen(sizes) if c.mode != "call" else None; inr = lambda x: And(0 <= x, x < N) if N is not None else 0 <= x; c.requires(c.forall(0, n, lambda t: inr(a[t])), "columns"); keep = lambda t: sz[a[t]] == 1; kept = lambda hi: c.count(0, hi, keep); k = c.any("index"); c.inst(k); c.hint(k); c.modifies(v, "len"); c.modifies(d, lo=0, hi=n)
    def inv(L):
        b = c.at(L).arr(d); i = L["i"]; m = simp(i - L["shift"])
        return [("kept so far", And(m == kept(i), L["n_ston_cols"] == m, 0 <= L["shift"], L["shift"] <= i)), ("to come", c.forall(i, n, lambda j: b[j] == a[j])), ("only singletons are kept", c.forall(0, m, lambda j: And(sz[b[j]] == 1, inr(b[j])))), ("moved", Implies(And(0 <= k, k < i, keep(k)), And(kept(k) >= 0, kept(k) < m, b[kept(k)] == a[k])))]
    c.loop(0, inv)
    yield
    b = c.arr(d); n1 = c.get(v, "len"); c.ensures("shorter", And(0 <= n1, n1 <= n)); c.ensures("only columns with one entry are kept", c.forall(0, n1, lambda j: And(sz[b[j]] == 1, inr(b[j]))))
    if c.mode != "call": c.ensures("every column with one entry is kept, in order", Implies(And(0 <= k, k < n, keep(k)), And(b[kept(k)] == a[k], n1 == kept(n))))
LISTS = ("rows_to_delete", "ston_rows", "dton_rows")
def colston_effect(name, sts):
    @contract(FILE, name, [], key=name + "/effect", assumed=f"{name} keeps the lists well formed, returns one of {sts} and changes only the row, the column, the objective and the counts it is given (its own contract is proved; the preconditions of that contract on the row at this call are the data structure invariants)")
    def _(c):
        row, col, obj, a, above, below, act, locks, rows, nnz, bounds, srows, drows, info = c.args; r, K = RowV(c, row), ColV(c, col); T0 = Tape(c, info); Ls = [Lst(c, x) for x in (rows, srows, drows)]
        for x in (T0, *Ls): c.requires(x.wf(), "lists well formed")
        c.requires(r.n >= 2, "the row has other entries"); r.modifies(); K.modifies(); c.modifies(nnz); c.modifies(locks, lo=0, hi=None); c.modifies(obj, "offset"); c.modifies(c.get(obj, "c"), lo=0, hi=None); T0.grows(); [x.grows() for x in Ls]
        for f in ACT[:4]: c.modifies(act, f)
        yield
        T1 = Tape(c, info); s = rc(c); c.ensures("lists", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, *[And(x.now().wf(), x.now().n >= x.n) for x in Ls])); c.ensures("status", Or(*[s == x for x in sts])); c.gset("changed", Or(c.gget("changed"), s == RED)); c.gset("unbounded", Or(c.gget("unbounded"), s == UNB)); c.ensures("nothing left when inactive", Implies(has(c.get(K.ptag), CIN), c.get(K.plen) == -1))
colston_effect("process_colston_eq", (UNCH, RED)); colston_effect("process_colston_ineq", (UNCH, RED, UNB))
def implied_flag(name, g):
    @contract("CoreTransformation.c", name, [], key=name + "/flag", assumed="")
    def _(c):
        a, row, lb, ub, t, act, tags, bounds = c.args
        yield
        c.gset(g, tobool(c.result)); c.ensures("a missing bound", Implies(has(t, UBI if "above" in name else LBI), tobool(c.result)))
implied_flag("implied_free_from_above_by_row", "above"); implied_flag("implied_free_from_below_by_row", "below")
@contract(FILE, "remove_ston_cols__", ["C16", "C06", "C13", "C20"], opaque=dict(DEL, **{f"process_colston_{e}": f"process_colston_{e}/effect" for e in ("eq", "ineq")}, **{f"implied_free_from_{s}_by_row": f"implied_free_from_{s}_by_row/flag" for s in ("above", "below")}), bmc=(1, 2))
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); obj = c.get(prob, "obj"); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}; S0 = Ls["ston_cols"]; lk = c.get(D.st, "col_locks")
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    c.requires(And(D.n >= 0, S0.n < 2**31)); c.requires(c.forall(0, S0.n, lambda t: And(0 <= S0.a[t], S0.a[t] < D.n)), "columns"); c.requires(c.forall(0, D.n, lambda k: Implies(D.cs[k] == 1, And(D.AT.end[k] == D.AT.start[k] + 1, D.AT.x[D.AT.start[k]] != 0, Not(has(D.ct[k], CIN))))), "columns with one entry")
    inner_frame(c, D); T0.grows(); [c.modifies(D.pact, f, lo=0, hi=None) for f in ACT[:4]]; c.modifies(obj, "offset"); c.modifies(c.get(obj, "c"), lo=0, hi=None); c.modifies(S0.d if hasattr(S0, "d") else c.get(S0.v, "data"), lo=0, hi=None); c.modifies(S0.v, "len"); Ls["rows_to_delete"].grows()
    for p in (D.plhs, D.prhs, D.prt, D.pct): c.modifies(p, lo=0, hi=None)
    c.requires(And(Not(c.gget("changed")), Not(c.gget("unbounded"))))
    def view(c2, a, eq):
        row, col, N = a[0], a[1], Cons(c2, cons).mtx(); k = S0.now(c2).a[local(c2, "kk")]; s = D.AT.start[k]; i = D.AT.i[s]; g = lambda p, f: c2.get(p, f); at = lambda p, base, o: And(p.one()[1] is base.one()[1], p.one()[2] == o) if p.one()[1] is base.one()[1] else z3.BoolVal(False)
        return [("the column's own row is used", And(g(row, "i") == i, at(g(row, "len"), D.prs, i), at(g(row, "lhs"), D.plhs, i), at(g(row, "rhs"), D.prhs, i), at(g(row, "tag"), D.prt, i), at(g(row, "range"), c.get(D.pA, "p"), i), at(g(row, "vals"), c.get(D.pA, "x"), N.A.start[i]), at(g(row, "cols"), c.get(D.pA, "i"), N.A.start[i]))),
            ("the column itself", And(g(col, "k") == k, at(g(col, "len"), D.pcs, k), at(g(col, "tag"), D.pct, k), at(g(col, "range"), c.get(D.pT, "p"), k), c2.get(g(col, "lb")) == N.lb[k], c2.get(g(col, "ub")) == N.ub[k])), ("its coefficient", a[3] == D.AT.x[s]), ("activity of that row", at(a[6], D.pact, i)),
            ("the row is active with other entries", And(Not(has(N.rt[i], RIN)), N.rs[i] >= 2)), ("equations and inequalities", has(N.rt[i], EQ) == eq), ("implied free or not as found", And(tobool(a[4]) == c2.gget("above"), tobool(a[5]) == c2.gget("below"))), ("one column at a time", And(D.cs[k] == 1, N.AT.start[k] == D.AT.start[k]))]
    c.before("process_colston_eq", lambda c2, a: view(c2, a, True)); c.before("process_colston_ineq", lambda c2, a: view(c2, a, False))
    def flag(c2, a):
        k = S0.now(c2).a[local(c2, "kk")]; s = D.AT.start[k]; i = D.AT.i[s]; N = Cons(c2, cons); return [("the row's bound on this column", And(a[0] == D.AT.x[s], a[2] == N.lb[k], a[3] == N.ub[k], eqt(a[4], N.ct[k]), c2.get(a[1], "i") == i, a[5].one()[2] == D.pact.one()[2] + i))]
    for s_ in ("above", "below"): c.before(f"implied_free_from_{s_}_by_row", flag)
    wfs = lambda c2: And(Tape(c2, D.info).wf(), Tape(c2, D.info).n >= T0.n, Tape(c2, D.info).end >= T0.end, *[And(x.now(c2).wf(), x.now(c2).n >= x.n) for f, x in Ls.items() if f not in ("ston_cols",)], S0.now(c2).wf())
    c.loop(0, lambda L: [("lists well formed", wfs(c.at(L))), ("range", L["kk"] >= 0), ("status so far", (lambda st: And((st & SB(6, 8) != 0) == c.at(L).gget("unbounded"), (st & SB(6, 8) == SB(2, 8)) == False, (st & SB(6, 8) == SB(4, 8)) == False, (st & SB(1, 8) != 0) == c.at(L).gget("changed"), st & SB(0xf8, 8) == 0))(to_bv(L["status"], 8)))])
    yield
    s = rc(c); c.ensures("the verdict on a column is returned", s == If(c.gget("unbounded"), UNB, If(c.gget("changed"), RED, UNCH))); c.ensures("lists well formed", And(Tape(c, D.info).wf(), *[x.now().wf() for x in Ls.values()]))
@contract(FILE, "remove_ston_cols__", [], key="remove_ston_cols__/any", assumed="")
def _(c):
    c.wild(c.args[0])
    yield
    s = rc(c); c.ensures("status", Or(s == UNCH, s == RED, s == UNB)); c.gset("last", s == UNB)
@contract(FILE, "remove_ston_cols", ["C16", "C06"], opaque={"remove_ston_cols__": "remove_ston_cols__/any"})
def _(c):
    c.wild(c.args[0]); c.loop(0, lambda L: [])
    yield
    c.ensures("unchanged or unbounded", Or(rc(c) == UNCH, rc(c) == UNB)); c.ensures("the verdict of the last pass is returned", (rc(c) == UNB) == c.gget("last"))
