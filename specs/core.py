"""Elementary transformations (C05, C13, C14, C16, C17, C18, C21, C22): fixing a column, tightening a bound or a side, implied bounds."""
from spec import *
import z3
from matrix import Mtx
from locks import LHSI, RHSI, IA
from vec import wf, Lst
from activity import LBI, UBI, Row, TAGS, F, Mat, acts, colmap, old_of, pos
from postsolve import Tape, record, Off, isbv, FC, FINF, DROW, BNO, BTHE, LHSC, RHSC, TOL
FIXED, SUBST, CIN, RIN, EQ = 16, 32, 48, 8, 4
UNCH, RED, INFEAS, UNB = 0, 1, 2, 6
ACT = ("n_inf_min", "n_inf_max", "min", "max", "status")
def frame_only(name, a, upd):
    """what update_activities_* may change, for callers whose property does not concern activities"""
    @contract("Activity.c", name, ["C21"], key=name + "/frame")
    def _(c):
        A, U = c.args[a], Lst(c, c.args[upd]); c.requires(U.wf(), "list well formed")
        for f in ACT: c.modifies(A, f, lo=0, hi=None)
        U.grows()
        c.loop(0, lambda L: [("list well formed", And(U.now(c.at(L)).wf(), U.now(c.at(L)).n >= U.n))], use=None)
        c.at_call("update_act_bound_change", lambda L, args: {})
        yield
        c.ensures("list well formed", And(U.now().wf(), U.now().n >= U.n))
@contract("Activity.c", "update_act_bound_change", ["C21"], key="update_act_bound_change/frame")
def _(c):
    for f in ACT[:4]: c.modifies(c.args[0], f)
    yield
for k_, v_ in (("update_activities_bound_change", 10), ("update_activities_fixed_col", 13)): frame_only(k_, 0, v_)
REG["update_activities_bound_change/frame"].o["use"] = REG["update_activities_fixed_col/frame"].o["use"] = {"update_act_bound_change": "update_act_bound_change/frame"}
FR = {n: n + "/frame" for n in ("update_activities_bound_change", "update_activities_fixed_col")}
class Cons:
    """the fields of a Constraints"""
    def __init__(s, c, cons, st=None):
        g = lambda p, *f: c.get(p, *f, st=st); a = lambda p: c.arr(p, st=st); s.c = c
        s.st = g(cons, "state"); s.info = g(s.st, "postsolve_info"); s.pA, s.pT = g(cons, "A"), g(cons, "AT"); s.m, s.n = g(cons, "m"), g(cons, "n")
        s.pb, s.pct, s.prt, s.plhs, s.prhs = (g(cons, f) for f in ("bounds", "col_tags", "row_tags", "lhs", "rhs")); b = a(s.pb); s.lb, s.ub, s.ct, s.rt, s.lhs, s.rhs = b.lb, b.ub, a(s.pct), a(s.prt), a(s.plhs), a(s.prhs)
        s.prs, s.pcs, s.pact = g(s.st, "row_sizes"), g(s.st, "col_sizes"), g(s.st, "activities"); s.rs, s.cs = a(s.prs), a(s.pcs)
    def mtx(s): s.A, s.AT = Mtx(s.c, s.pA), Mtx(s.c, s.pT); return s
    def lst(s, f): return Lst(s.c, s.c.get(s.st, f))
    def modifies_act(s, when=None):
        for f in ACT: s.c.modifies(s.pact, f, lo=0, hi=None, when=when)
def rc(c): return sym.to_int(c.result)
def bor(t, m): return to_bv(t, 8) | z3.BitVecVal(m, 8)
def bclr(t, m): return to_bv(t, 8) & z3.BitVecVal(255 - m, 8)
def eqt(a, b): return to_bv(a, 8) == to_bv(b, 8)
# ------------------------------------------------------------------ fixing a column
@contract("CoreTransformation.c", "fix_col", ["C13", "C05", "C02", "C03", "C23"], use=FR)
def _(c):
    cons, col, val, ck = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); L0, U0 = D.lst("fixed_cols_to_delete"), D.lst("updated_activities")
    c.requires(And(T0.wf(), L0.wf(), U0.wf()), "lists well formed"); s0, e0 = D.AT.start[col], D.AT.end[col]; c.requires(s0 <= e0, "column range")
    bad = Or(And(Not(has(D.ct[col], UBI)), val >= D.ub[col] + TOL), And(Not(has(D.ct[col], LBI)), val <= D.lb[col] - TOL)); ok = simp(Not(bad))
    c.modifies(D.pb, lo=col, hi=col + 1, when=ok); c.modifies(D.pct, lo=col, hi=col + 1, when=ok); L0.grows(1, ok); U0.grows(None, ok); T0.grows(1, 2 + e0 - s0 if False else e0 - s0 + 2, ok); D.modifies_act(ok)
    yield
    N = Cons(c, cons)
    c.ensures("infeasible exactly when the value lies outside the bounds", rc(c) == If(bad, INFEAS, RED))
    c.ensures("both bounds are the value", Implies(ok, And(N.lb[col] == val, N.ub[col] == val))); c.ensures("marked as fixed", Implies(ok, eqt(N.ct[col], bor(D.ct[col], FIXED))))
    L1 = L0.now(); c.ensures("listed for deletion once", Implies(ok, And(L1.n == L0.n + 1, L1.a[L0.n] == col)))
    T1, _ = record(c, T0, D.info, FC, [col, None, (Off(D.AT.i, s0), simp(e0 - s0))], [val, ck, (Off(D.AT.x, s0), simp(e0 - s0))], when=ok)
    c.ensures("one record more", Implies(ok, T1.n == T0.n + 1)); c.ensures("lists well formed", And(T1.wf(), L1.wf(), U0.now().wf(), U0.now().n >= U0.n))
@contract("CoreTransformation.c", "fix_col", ["C21", "C13"], key="fix_col/activities", callable=False)
def _(c):
    cons, col, val, ck = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); c.requires(And(T0.wf(), D.lst("fixed_cols_to_delete").wf(), D.lst("updated_activities").wf()), "lists well formed")
    activities(c, D, col, "update_activities_fixed_col")
    yield
    N = Cons(c, cons); S = acts(c, D.pact); T1 = F(z3.Store(D.ct.raw()[0], D.ct.off + col, D.ct[col] & z3.BitVecVal(250, 8)))
    r0, r1 = Row(c, D.A.x, D.A.i, D.ct, D.lb, D.ub), Row(c, D.A.x, D.A.i, T1, N.lb, N.ub)
    for w, r in ((True, r0), (False, r1)): c.ensures("activities exact for the fixed value" if not w else "activities unchanged when infeasible", Implies((rc(c) == INFEAS) == w, c.forall(0, D.A.m, lambda i: rowok(D, r, S, i))))
def rowok(D, r, S, i): return r.ok(S[0][i], S[1][i], S[2][i], S[3][i], D.A.start[i], D.A.end[i])
def activities(c, D, col, callee):
    """activities are exact before; the ghost arguments of the callee"""
    s0, n = D.AT.start[col], simp(D.AT.end[col] - D.AT.start[col]); M = D.A; k, v = Off(D.AT.i, s0), Off(D.AT.x, s0); c.requires(n >= 0)
    inv, pp = c.ghost("inverse", IA), c.ghost("position", IA)
    c.requires(c.forall(0, n, lambda j: And(inv[k[j]] == j, 0 <= k[j], k[j] < M.m, M.start[k[j]] <= pp[k[j]], pp[k[j]] < M.end[k[j]], M.i[pp[k[j]]] == col, M.x[pp[k[j]]] == v[j], v[j] != 0)), "column and rows agree")
    inside = lambda i, hi: And(0 <= inv[i], inv[i] < hi, k[inv[i]] == i)
    c.requires(c.forall(0, M.m, lambda i: And(M.start[i] <= M.end[i], c.forall(M.start[i], M.end[i], lambda j: Implies(M.i[j] == col, And(inside(i, n), j == pp[i]))))), "rows and column agree")
    S0 = acts(c, D.pact); r0 = Row(c, M.x, M.i, D.ct, D.lb, D.ub); c.requires(c.forall(0, M.m, lambda i: rowok(D, r0, S0, i)), "activities exact")
    t0 = D.ct.raw(); c.requires(t0[1] == 0)
    D.modifies_act(); c.modifies(D.pb, lo=col, hi=col + 1); c.modifies(D.pct, lo=col, hi=col + 1); Tape(c, D.info).grows(); D.lst("fixed_cols_to_delete").grows(); D.lst("updated_activities").grows()
    c.at_call(callee, lambda L, args: dict(column=col, tags=t0[0], inverse=inv, position=pp))
@contract("Postsolver.c", "save_retrieval_fixed_col_inf", ["C02", "C17"], key="save_retrieval_fixed_col_inf/appends")
def _(c):
    info, col, sign, cons, bound = c.args; T0 = Tape(c, info); c.requires(T0.wf(), "tape well formed"); D = Cons(c, cons).mtx(); s0, e0 = D.AT.start[col], D.AT.end[col]; c.requires(s0 <= e0, "column range")
    c.requires(c.forall(s0, e0, lambda t: D.rs[D.AT.i[t]] >= 0), "the rows of the column are active"); T0.grows(1, None); e = T0.end
    if c.mode == "verify":
        for f in ("type", "starts", "indices", "vals"): c.modifies_ptr(getattr(T0, f + "_v"), "data")
    def head(T): return [("type", isbv(T.type[T0.n], FINF)), ("sign and column", And(T.indices[e] == sign, T.indices[e + 1] == col)), ("number of rows and bound", And(T.vals[e] == z3.ToReal(simp(e0 - s0)), T.vals[e + 1] == bound))]
    lens = lambda T: And(T.n == T0.n + 1, T.starts_n == T0.n + 1, T.indices_n == T.vals_n, T.indices_n >= e + 2, *[And(0 <= getattr(T, f + "_n"), getattr(T, f + "_n") <= getattr(T, f + "_cap"), getattr(T, f + "_cap") >= 1) for f in ("type", "starts", "indices", "vals")])
    c.loop(0, lambda L: [("lengths", And(0 <= L["i"], lens(Tape(c.at(L), info))))] + head(Tape(c.at(L), info))); c.loop(1, lambda L: [])
    yield
    T1 = Tape(c, info)
    for n, f in head(T1): c.ensures(n, f)
    c.ensures("one record more", T1.n == T0.n + 1); c.ensures("tape well formed", And(T1.wf(), T1.end >= T0.end + 2, T1.starts[T0.n] == T0.end))
def fix_inf(name, up):
    @contract("CoreTransformation.c", name, ["C17", "C02", "C06", "C13", "C23"], use={"save_retrieval_fixed_col_inf": "save_retrieval_fixed_col_inf/appends"}, bmc=(2,))
    def _(c):
        cons, col = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); R0 = D.lst("rows_to_delete"); c.requires(And(T0.wf(), R0.wf()), "lists well formed")
        s0, e0 = D.AT.start[col], D.AT.end[col]; row = lambda i: D.AT.i[i]; c.requires(s0 <= e0, "column range"); c.requires(c.forall(s0, e0, lambda t: D.rs[row(t)] >= 0), "the rows of the column are active")
        inv = c.ghost("inverse", IA); q = c.ghost("entry"); c.requires(c.every(D.AT.i, s0, e0, lambda t, v: inv[v] == t), "rows occur once"); c.requires(And(s0 <= q, q < e0))
        new = lambda lo, hi: c.count(lo, hi, lambda t: Not(has(D.rt[row(t)], RIN))); inr = lambda r, hi: And(s0 <= inv[r], inv[r] < hi, row(inv[r]) == r)
        R0.grows(); T0.grows(); c.modifies(D.prt, lo=0, hi=None); c.modifies(D.pct, lo=col, hi=col + 1); c.modifies(D.pcs, lo=col, hi=col + 1); c.modifies(D.pb, lo=col, hi=col + 1); c.modifies(c.get(D.pT, "p"), "end", lo=col, hi=col + 1)
        c.hint(q)
        def state(d, i, T=None):
            N = Cons(d, cons); R1, T1 = R0.now(d), Tape(d, D.info); k = new(s0, i); kq = new(s0, q); rr = z3.Int("r?"); tg = eqt(N.rt[rr], If(inr(rr, i), bor(D.rt[rr], RIN), to_bv(D.rt[rr], 8)))
            mine = Implies(And(q < i, Not(has(D.rt[row(q)], RIN))), And(kq < k, R1.a[R0.n + kq] == row(q), isbv(T1.type[T0.n + 1 + kq], DROW), T1.indices[T1.starts[T0.n + 1 + kq]] == row(q), T1.vals[T1.starts[T0.n + 1 + kq]] == 0, T1.starts[T0.n + 1 + kq] < T1.end))
            if c.bmc: rr = z3.Int("r?any")
            tg = eqt(N.rt[rr], If(inr(rr, i), bor(D.rt[rr], RIN), to_bv(D.rt[rr], 8)))
            return [("rows so far inactive, other rows untouched", tg if c.bmc else z3.ForAll([rr], tg)), ("newly inactive rows listed", And(R1.wf(), R1.n == R0.n + k)), ("one record each", And(T1.wf(), T1.n == T0.n + 1 + k, T1.end >= T0.end + 2)),
                    ("each of them listed and recorded once", mine), ("the column's record stays", And(isbv(T1.type[T0.n], FINF), T1.starts[T0.n] == T0.end, T1.starts[T0.n + 1] >= T0.end + 2, T1.indices[T0.end] == (1 if up else -1), T1.indices[T0.end + 1] == col, T1.vals[T0.end] == z3.ToReal(simp(e0 - s0)), T1.vals[T0.end + 1] == (D.lb if up else D.ub)[col]))]
        c.loop(0, lambda L: [("entry range", And(s0 <= L["i"], L["i"] <= e0))] + state(c.at(L), L["i"]))
        yield
        for n, f in state(c, e0): c.ensures(n, f)
        N = Cons(c, cons).mtx()
        c.ensures("marked as fixed", eqt(N.ct[col], bor(D.ct[col], FIXED))); c.ensures("both bounds infinite", And(N.lb[col] == (INF if up else -INF), N.ub[col] == (INF if up else -INF)))
        c.ensures("the column is inactive and empty", And(N.cs[col] == -1, N.AT.start[col] == s0, N.AT.end[col] == s0))
def fix_inf_effect(name, up):
    """the same without the rows, for callers that fix many columns"""
    @contract("CoreTransformation.c", name, ["C17"], key=name + "/effect", use={"save_retrieval_fixed_col_inf": "save_retrieval_fixed_col_inf/appends"})
    def _(c):
        cons, col = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); R0 = D.lst("rows_to_delete"); c.requires(And(T0.wf(), R0.wf()), "lists well formed")
        s0, e0 = D.AT.start[col], D.AT.end[col]; c.requires(s0 <= e0, "column range"); c.requires(c.forall(s0, e0, lambda t: D.rs[D.AT.i[t]] >= 0), "the rows of the column are active")
        R0.grows(); T0.grows(); c.modifies(D.prt, lo=0, hi=None); c.modifies(D.pct, lo=col, hi=col + 1); c.modifies(D.pcs, lo=col, hi=col + 1); c.modifies(D.pb, lo=col, hi=col + 1); c.modifies(c.get(D.pT, "p"), "end", lo=col, hi=col + 1)
        c.loop(0, lambda L: (lambda R1, T1: [("entry range", And(s0 <= L["i"], L["i"] <= e0)), ("lists", And(R1.wf(), R1.n >= R0.n, T1.wf(), T1.n >= T0.n + 1, T1.end >= T0.end + 2)), ("the column's record stays", And(isbv(T1.type[T0.n], FINF), T1.starts[T0.n] == T0.end, T1.indices[T0.end] == (1 if up else -1), T1.indices[T0.end + 1] == col))])(R0.now(c.at(L)), Tape(c.at(L), D.info)))
        yield
        N = Cons(c, cons).mtx(); R1, T1 = R0.now(), Tape(c, D.info)
        c.ensures("marked as fixed", eqt(N.ct[col], bor(D.ct[col], FIXED))); c.ensures("both bounds infinite", And(N.lb[col] == (INF if up else -INF), N.ub[col] == (INF if up else -INF)))
        c.ensures("the column is inactive and empty", And(N.cs[col] == -1, N.AT.end[col] == s0)); c.ensures("lists well formed", And(T1.wf(), R1.wf(), R1.n >= R0.n, T1.n >= T0.n + 1, T1.end >= T0.end + 2)); c.ensures("record of the column", And(isbv(T1.type[T0.n], FINF), T1.starts[T0.n] == T0.end, T1.indices[T0.end] == (1 if up else -1), T1.indices[T0.end + 1] == col))
fix_inf_effect("fix_col_to_negative_inf", False); fix_inf_effect("fix_col_to_positive_inf", True)
fix_inf("fix_col_to_negative_inf", False); fix_inf("fix_col_to_positive_inf", True)
# ------------------------------------------------------------------ tightening a bound
def update_bound(name, lower):
    def tight(D, col, v):
        o = And(Not(has(D.ct[col], UBI)), v >= D.ub[col] + TOL) if lower else And(Not(has(D.ct[col], LBI)), v <= D.lb[col] - TOL)
        t = Or(has(D.ct[col], LBI), v >= D.lb[col] + TOL) if lower else Or(has(D.ct[col], UBI), v <= D.ub[col] - TOL)
        return simp(o), simp(And(Not(o), t))
    @contract("CoreTransformation.c", name, ["C14", "C05", "C03", "C23"], use=FR)
    def _(c):
        cons, col, v, row = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); U0 = D.lst("updated_activities"); c.requires(And(T0.wf(), U0.wf()), "lists well formed"); bad, ok = tight(D, col, v)
        s0 = D.A.start[row]; n = simp(D.A.end[row] - s0); c.requires(n >= 0, "row range"); c.requires(D.AT.start[col] <= D.AT.end[col], "column range")
        c.modifies(D.pb, "lb" if lower else "ub", lo=col, hi=col + 1, when=ok); c.modifies(D.pct, lo=col, hi=col + 1, when=ok); U0.grows(None, ok); D.modifies_act(ok); T0.grows(2, 3 + n, ok)
        yield
        N = Cons(c, cons); c.ensures("infeasible exactly when the bounds cross", rc(c) == If(bad, INFEAS, UNCH))
        c.ensures("bound tightened", Implies(ok, And((N.lb if lower else N.ub)[col] == v, eqt(N.ct[col], bclr(D.ct[col], LBI if lower else UBI)))))
        _, e = record(c, T0, D.info, BNO, [col, 0 if lower else 1], [v, (D.ub if lower else D.lb)[col]], when=ok)
        T1, _ = record(c, T0, D.info, BTHE, [row, (Off(D.A.i, s0), n)], [z3.RealVal(1), (Off(D.A.x, s0), n)], k=1, base=e, when=ok)
        c.ensures("two records more", Implies(ok, T1.n == T0.n + 2)); c.ensures("lists well formed", And(T1.wf(), U0.now().wf(), U0.now().n >= U0.n))
    @contract("CoreTransformation.c", name, ["C21", "C14"], key=name + "/activities", callable=False)
    def _(c):
        cons, col, v, row = c.args; D = Cons(c, cons).mtx(); c.requires(And(Tape(c, D.info).wf(), D.lst("updated_activities").wf()), "lists well formed"); bad, ok = tight(D, col, v); c.requires(D.A.start[row] <= D.A.end[row], "row range")
        activities(c, D, col, "update_activities_bound_change")
        yield
        N = Cons(c, cons); S = acts(c, D.pact); r1 = Row(c, D.A.x, D.A.i, F(z3.Store(D.ct.raw()[0], D.ct.off + col, If(ok, bclr(D.ct[col], LBI if lower else UBI), D.ct[col]))), N.lb, N.ub); r0 = Row(c, D.A.x, D.A.i, D.ct, D.lb, D.ub)
        for nm, w, r in (("activities exact for the new bound", ok, r1), ("activities kept otherwise", Not(ok), r0)): c.ensures(nm, Implies(w, c.forall(0, D.A.m, lambda i: rowok(D, r, S, i))))
update_bound("update_lb", True); update_bound("update_ub", False)
# ------------------------------------------------------------------ implied bounds
def implied(c, a, lo, hi, v, k, rt, lhs, rhs, act, lb, ub, t, tags, B, above):
    """the bound of one variable that the row implies (None: none): right side when it pushes up, left side otherwise"""
    R_ = Row(c, v, k, tags, B.lb, B.ub); pos_ = a > 0
    use_r = pos_ if above else Not(pos_)
    ninf, m = If(use_r, act["n_inf_min"], act["n_inf_max"]), If(use_r, act["min"], act["max"])
    tmp = If(use_r, R_.tmin(lo, hi), R_.tmax(lo, hi)); side = If(use_r, rhs, lhs); free = Not(If(use_r, has(rt, RHSI), has(rt, LHSI)))
    other = lb if above else ub; oinf = has(t, LBI if above else UBI)
    return [(And(free, ninf == 0), other + (side - m) / a), (And(free, ninf == 1, oinf), (side - tmp) / a)]
def by_row(name, above):
    @contract("CoreTransformation.c", name, ["C16", "C21"])
    def _(c):
        a, row, lb, ub, t, pact, tags, bounds = c.args; n = c.get(c.get(row, "len")); v, k = c.arr(c.get(row, "vals")), c.arr(c.get(row, "cols")); act = {f: c.get(pact, f) for f in ACT[:4]}; rt, lhs, rhs = (c.get(c.get(row, f)) for f in ("tag", "lhs", "rhs"))
        c.requires(And(n >= 0, a != 0)); cs = implied(c, a, 0, pos(n), v, k, rt, lhs, rhs, act, lb, ub, t, c.arr(tags), c.arr(bounds), above)
        yield
        ok = Or(*[And(g, (b <= ub) if above else (b >= lb)) for g, b in cs], And(Not(cs[0][0]), Not(cs[1][0]), (ub >= INF) if above else (lb <= -INF)))
        c.ensures("free in this direction exactly when unbounded or the row implies the bound", tobool(c.result) == Or(has(t, UBI if above else LBI), ok))
def tobool(x): return x if z3.is_bool(x) else sym.to_int(x) != 0
by_row("implied_free_from_above_by_row", True); by_row("implied_free_from_below_by_row", False)
def implied_any(name, above):
    @contract("CoreTransformation.c", name, ["C16"])
    def _(c):
        col, pact, lhs, rhs, rtags, A, ctags, bounds = c.args; M = Mtx(c, A); n = c.get(c.get(col, "len")); v, r = c.arr(c.get(col, "vals")), c.arr(c.get(col, "rows")); lb, ub, t = (c.get(c.get(col, f)) for f in ("lb", "ub", "tag")); S = c.arr(pact); L_, R_, rt, B = c.arr(lhs), c.arr(rhs), c.arr(rtags), c.arr(bounds); ct = c.arr(ctags)
        c.requires(And(n >= 0, Not(has(t, UBI if above else LBI)))); c.requires(c.forall(0, n, lambda i: And(v[i] != 0, M.start[r[i]] <= M.end[r[i]])), "entries")
        def good(i):
            q = r[i]; act = {f: getattr(S, f)[q] for f in ACT[:4]}; s = M.start[q]
            cs = implied(c, v[i], s, M.end[q], M.x, M.i, rt[q], L_[q], R_[q], act, lb, ub, t, ct, B, above)
            return Or(*[And(g, (b <= ub) if above else (b >= lb)) for g, b in cs], And(Not(cs[0][0]), Not(cs[1][0]), (ub >= INF) if above else (lb <= -INF)))
        c.loop(0, lambda L: [("no row so far", c.forall(0, L["ii"], lambda i: Not(good(i)))), ("range", And(0 <= L["ii"], L["ii"] <= n))], use=lambda L: (c.inst(L["ii"]), [])[1])
        yield
        c.ensures("implied free exactly when some row implies the bound", tobool(c.result) == c.exists(0, n, good))
implied_any("is_ub_implied_free", True); implied_any("is_lb_implied_free", False)
# ------------------------------------------------------------------ tightening a side
def change_side(name, isr):
    @contract("CoreTransformation.c", name, ["C18", "C22", "C05", "C23"])
    def _(c):
        row, v, locks, dton, info, other, ratio = c.args; g = lambda f: c.get(row, f); n = c.get(g("len")); vals, cols = c.arr(g("vals")), c.arr(g("cols")); t, lhs, rhs, i = c.get(g("tag")), c.get(g("lhs")), c.get(g("rhs")), g("i"); lk = c.arr(locks); T0, D0 = Tape(c, info), Lst(c, dton)
        mine, oth, mf, of = (rhs, lhs, RHSI, LHSI) if isr else (lhs, rhs, LHSI, RHSI); n_ = n; c.requires(And(n >= 0, T0.wf(), D0.wf(), Not(has(t, 8)), Implies(has(t, EQ), And(lhs == rhs, Not(has(t, of)), (v <= rhs) if isr else (v >= lhs)))), "well formed")
        inv = c.ghost("inverse", IA) if c.mode == "verify" else None
        if inv is not None: c.requires(c.every(cols, 0, n, lambda j, k: inv[k] == j), "columns occur once")
        bad = simp(And(Not(has(t, of)), (oth >= v + TOL) if isr else (oth <= v - TOL))); ok = simp(Not(bad)); was = has(t, mf); eq = And(Not(has(t, of)), absr(oth - v) <= TOL)
        for f in ("up", "down"): c.modifies(locks, f, lo=0, hi=None, when=simp(And(ok, was)))
        c.modifies(g("rhs" if isr else "lhs"), when=ok); c.modifies(g("tag"), when=ok); D0.grows(1, simp(And(ok, eq, n == 2))); T0.grows(1, 2 + n, ok)
        up = lambda x: (x > 0) if isr else Not(x > 0)
        q = z3.Int("q?any") if c.bmc else z3.Int("q?")
        def counts(N, hi):
            if inv is None: return z3.BoolVal(True)
            inr = And(0 <= inv[q], inv[q] < hi, cols[inv[q]] == q); f = And(N.up[q] == lk.up[q] + If(And(inr, up(vals[inv[q]])), 1, 0), N.down[q] == lk.down[q] + If(And(inr, Not(up(vals[inv[q]]))), 1, 0))
            return f if c.bmc else z3.ForAll([q], f)
        c.loop(0, lambda L: [("columns so far counted", counts(c.at(L).arr(locks), L["i"]))])
        yield
        c.ensures("infeasible exactly when the sides cross", rc(c) == If(bad, INFEAS, RED))
        N = lambda f: c.get(g(f))
        c.ensures("side changed", Implies(ok, N("rhs" if isr else "lhs") == If(eq, oth, v)))
        c.ensures("tag follows", Implies(ok, eqt(N("tag"), If(eq, bor(bclr(t, mf), EQ), bclr(t, mf)))))
        c.ensures("opposing counts follow", Implies(And(ok, was), counts(c.arr(locks), n)))
        D1 = D0.now(); c.ensures("new equations with two entries are listed", If(And(ok, eq, n == 2), And(D1.n == D0.n + 1, D1.a[D0.n] == i), D1.n == D0.n))
        T1, _ = record(c, T0, info, RHSC if isr else LHSC, [i, other, (cols, n)], [v, ratio, (vals, n)], when=ok); c.ensures("one record more", Implies(ok, T1.n == T0.n + 1)); c.ensures("lists well formed", And(T1.wf(), D1.wf()))
change_side("change_rhs_of_ineq", True); change_side("change_lhs_of_ineq", False)
