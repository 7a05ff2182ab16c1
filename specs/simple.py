"""Simple reductions (C01, C05, C06, C13, C14, C17, C22): singleton and empty rows, empty columns, redundant sides, dual fixing."""
from spec import *
import z3
from matrix import Mtx
from core import *
def bit(b): return If(b, 1, 0)
# ------------------------------------------------------------------ what the deletions may change, for the phases that end with them
def del_frame(name, rows):
    @contract("Constraints.c", name, ["C20"], key=name + "/frame")
    def _(c):
        cons, = c.args; D = Cons(c, cons).mtx(); outs = [D.lst(f) for f in (("empty_cols", "ston_cols") if rows else ("empty_rows", "ston_rows", "dton_rows"))]; ins = [D.lst(f) for f in (("rows_to_delete",) if rows else ("fixed_cols_to_delete", "sub_cols_to_delete"))]
        c.requires(And([x.wf() for x in outs + ins]), "lists well formed"); M, T = (D.pA, D.pT) if rows else (D.pT, D.pA)
        c.modifies(D.prs, lo=0, hi=None); c.modifies(D.pcs, lo=0, hi=None); c.modifies(c.get(D.pA, "p"), "end", lo=0, hi=None); c.modifies(c.get(D.pT, "p"), "end", lo=0, hi=None); c.modifies(c.get(T, "i"), lo=0, hi=None); c.modifies(c.get(T, "x"), lo=0, hi=None); c.modifies(D.pA, "nnz"); c.modifies(D.pT, "nnz")
        if rows:
            for f in ("up", "down"): c.modifies(c.get(D.st, "col_locks"), f, lo=0, hi=None)
        for x in outs: x.grows()
        for x in ins: c.modifies(x.v, "len")
        for k in range(4 if rows else 6): c.loop(k, lambda L: [("lists well formed", And([And(x.now(c.at(L)).wf(), x.now(c.at(L)).n >= x.n) for x in outs] + [x.now(c.at(L)).wf() for x in ins]))])
        yield
        c.ensures("lists well formed", And([And(x.now().wf(), x.now().n >= x.n) for x in outs] + [x.now().wf() for x in ins]))
del_frame("delete_inactive_rows", True); del_frame("delete_inactive_cols_from_A_and_AT", False)
@contract("SimpleReductions.c", "delete_fixed_cols_from_problem", ["C13"], key="delete_fixed_cols_from_problem/frame")
def _(c):
    prob, = c.args; D = Cons(c, c.get(prob, "constraints"))
    for p in (D.plhs, D.prhs): c.modifies(p, lo=0, hi=None)
    for f in ("min", "max"): c.modifies(D.pact, f, lo=0, hi=None)
    c.modifies(c.get(prob, "obj"), "offset"); c.loop(0, lambda L: []); c.loop(1, lambda L: [])
    yield
    if c.mode == "call": c.gset("adjusted", TRUE)
def adjust_first(c):
    """sides, activities and objective lose the fixed columns before the columns are deleted"""
    c.requires(Not(c.gget("adjusted"))); c.before("delete_inactive_cols_from_A_and_AT", lambda c2, a: [("sides and objective are adjusted before the columns go", c2.gget("adjusted"))])
DEL = {n: n + "/frame" for n in ("delete_inactive_rows", "delete_inactive_cols_from_A_and_AT", "delete_fixed_cols_from_problem")}
# ------------------------------------------------------------------ removing fixed columns from sides, activities and objective
@contract("SimpleReductions.c", "delete_fixed_cols_from_problem", ["C01", "C13", "C21", "C17", "C05"], callable=False)
def _(c):
    prob, = c.args; D = Cons(c, c.get(prob, "constraints")).mtx(); obj = c.get(prob, "obj"); cost = c.arr(c.get(obj, "c")); o0 = c.get(obj, "offset"); L0 = D.lst("fixed_cols_to_delete"); q = c.ghost("row"); c.requires(And(L0.wf()), "list well formed")
    AT, d = D.AT, L0.a; c.requires(c.forall(0, L0.n, lambda i: And(AT.start[d[i]] <= AT.end[d[i]])), "column ranges")
    ent = lambda i, hi=None: c.sum(AT.start[d[i]], AT.end[d[i]] if hi is None else hi, lambda t: If(AT.i[t] == q, AT.x[t], z3.RealVal(0))) * D.ub[d[i]]
    S0 = acts(c, D.pact); tot = lambda hi: c.sum(0, hi, lambda i: ent(i)); off = lambda hi: c.sum(0, hi, lambda i: cost[d[i]] * D.ub[d[i]])
    for p in (D.plhs, D.prhs): c.modifies(p, lo=0, hi=None)
    for f in ("min", "max"): c.modifies(D.pact, f, lo=0, hi=None)
    c.modifies(obj, "offset"); act = Not(has(D.rt[q], RIN))
    def state(c2, s):
        N = Cons(c2, c.get(prob, "constraints")); S = acts(c2, D.pact); s = If(act, s, z3.RealVal(0))
        return [("left side", N.lhs[q] == D.lhs[q] - If(has(D.rt[q], LHSI), z3.RealVal(0), s)), ("right side", N.rhs[q] == D.rhs[q] - If(has(D.rt[q], RHSI), z3.RealVal(0), s)),
                ("minimum activity", S[2][q] == S0[2][q] - If(S0[0][q] == 0, s, z3.RealVal(0))), ("maximum activity", S[3][q] == S0[3][q] - If(S0[1][q] == 0, s, z3.RealVal(0)))]
    c.loop(0, lambda L: state(c.at(L), tot(L["i"])) + [("offset", c.at(L).get(obj, "offset") == o0 + off(L["i"])), ("range", 0 <= L["i"])])
    c.loop(1, lambda L: state(c.at(L), tot(L["i"]) + ent(L["i"], simp(AT.start[d[L["i"]]] + L["j"]))) + [("offset", c.at(L).get(obj, "offset") == o0 + off(L["i"]))])
    yield
    for n, f in state(c, tot(L0.n)): c.ensures(n + " loses the fixed columns", f)
    c.ensures("offset takes the cost of the fixed columns", c.get(obj, "offset") == o0 + off(L0.n))
# ------------------------------------------------------------------ empty rows and columns
@contract("SimpleReductions.c", "remove_empty_rows", ["C05", "C23", "C03"])
def _(c):
    cons, = c.args; D = Cons(c, cons); E0, T0 = D.lst("empty_rows"), Tape(c, D.info); d = E0.a; c.requires(And(E0.wf(), T0.wf()), "lists well formed")
    inv = c.ghost("inverse", IA); q, j = c.ghost("row"), c.ghost("place"); c.requires(c.every(d, 0, E0.n, lambda i, v: inv[v] == i), "rows listed once"); c.requires(And(0 <= j, j < E0.n)) if False else None
    bad = lambda i: Or(And(Not(has(D.rt[d[i]], LHSI)), D.lhs[d[i]] >= TOL), And(Not(has(D.rt[d[i]], RHSI)), D.rhs[d[i]] <= -TOL))
    inr = lambda r, hi: And(0 <= inv[r], inv[r] < hi, d[inv[r]] == r)
    c.modifies(D.prt, lo=0, hi=None); c.modifies(D.prs, lo=0, hi=None); c.modifies(E0.v, "len"); T0.grows()
    def state(c2, i):
        N = Cons(c2, cons); T = Tape(c2, D.info); r = T0.n + j
        return [("no infeasible row so far", c.forall(0, i, lambda t: Not(bad(t)))), ("exactly the rows so far are inactive", And(eqt(N.rt[q], If(inr(q, i), bor(D.rt[q], RIN), D.rt[q])), N.rs[q] == If(inr(q, i), -1, D.rs[q]))), ("tape", And(T.wf(), T.n == T0.n + i, T.end == T0.end + i)),
                ("one record per row", Implies(And(0 <= j, j < i), And(isbv(T.type[r], DROW), T.starts[r] == T0.end + j, T.starts[r + 1] == T0.end + j + 1, T.indices[T0.end + j] == d[j], T.vals[T0.end + j] == 0)))]
    def tags(c2, i):
        N = Cons(c2, cons); return c.forall(i, E0.n, lambda t: eqt(N.rt[d[t]], D.rt[d[t]]))
    c.loop(0, lambda L: state(c.at(L), L["i"]) + [("rows to come", tags(c.at(L), L["i"])), ("range", And(0 <= L["i"], L["i"] <= E0.n))])
    yield
    c.ensures("infeasible exactly when an empty row excludes zero", rc(c) == If(c.exists(0, E0.n, bad), INFEAS, UNCH))
    for n, f in state(c, E0.n): c.ensures(n, Implies(rc(c) != INFEAS, f))
    c.ensures("list emptied", Implies(rc(c) != INFEAS, c.get(E0.v, "len") == 0))
@contract("SimpleReductions.c", "remove_empty_cols", ["C06", "C01", "C13", "C03", "C23", "C05"])
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons); obj = c.get(prob, "obj"); cost = c.arr(c.get(obj, "c")); o0 = c.get(obj, "offset"); E0, T0 = D.lst("empty_cols"), Tape(c, D.info); d = E0.a; c.requires(And(E0.wf(), T0.wf()), "lists well formed")
    inv = c.ghost("inverse", IA); q, j = c.ghost("column"), c.ghost("place"); c.requires(c.every(d, 0, E0.n, lambda i, v: inv[v] == i), "columns listed once")
    k = lambda i: d[i]; unb = lambda i: Or(And(cost[k(i)] < 0, has(D.ct[k(i)], UBI)), And(cost[k(i)] > 0, has(D.ct[k(i)], LBI)))
    zero = lambda i: If(And(Not(has(D.ct[k(i)], LBI)), D.lb[k(i)] > 0), D.lb[k(i)], If(And(Not(has(D.ct[k(i)], UBI)), D.ub[k(i)] < 0), D.ub[k(i)], z3.RealVal(0)))
    val = lambda i: If(cost[k(i)] == 0, zero(i), If(cost[k(i)] < 0, D.ub[k(i)], D.lb[k(i)])); inr = lambda r, hi: And(0 <= inv[r], inv[r] < hi, d[inv[r]] == r)
    c.modifies(D.pct, lo=0, hi=None); c.modifies(D.pcs, lo=0, hi=None); c.modifies(D.pb, lo=0, hi=None); c.modifies(obj, "offset"); c.modifies(E0.v, "len"); T0.grows()
    off = lambda hi: c.sum(0, hi, lambda i: cost[d[i]] * val(i))
    def state(c2, i):
        N = Cons(c2, cons); T = Tape(c2, D.info); r = T0.n + j; e = T0.end + 2 * j
        return [("no unbounded column so far", c.forall(0, i, lambda t: Not(unb(t)))), ("exactly the columns so far are inactive", And(eqt(N.ct[q], If(inr(q, i), bor(D.ct[q], FIXED), D.ct[q])), N.cs[q] == If(inr(q, i), -1, D.cs[q]))), ("tape", And(T.wf(), T.n == T0.n + i, T.end == T0.end + 2 * i)), ("objective offset", c2.get(obj, "offset") == o0 + off(i)),
                ("one record per column", Implies(And(0 <= j, j < i), And(isbv(T.type[r], FC), T.starts[r] == e, T.starts[r + 1] == e + 2, T.indices[e] == d[j], T.vals[e] == val(j), T.vals[e + 1] == cost[d[j]])))]
    def come(c2, i):
        N = Cons(c2, cons); return c.forall(i, E0.n, lambda t: And(eqt(N.ct[d[t]], D.ct[d[t]]), N.lb[d[t]] == D.lb[d[t]], N.ub[d[t]] == D.ub[d[t]]))
    c.loop(0, lambda L: state(c.at(L), L["i"]) + [("columns to come", come(c.at(L), L["i"])), ("range", And(0 <= L["i"], L["i"] <= E0.n))])
    yield
    c.ensures("unbounded or infeasible exactly when a cost pushes to a missing bound", rc(c) == If(c.exists(0, E0.n, unb), UNB, UNCH))
    for n, f in state(c, E0.n): c.ensures(n, Implies(rc(c) == UNCH, f))
    c.ensures("list emptied", Implies(rc(c) == UNCH, c.get(E0.v, "len") == 0))
    t = c.any("column_of_list"); c.ensures_any("value within the bounds", [t], Implies(And(0 <= t, t < E0.n, rc(c) == UNCH, Or(has(D.ct[d[t]], LBI), has(D.ct[d[t]], UBI), D.lb[d[t]] <= D.ub[d[t]])), And(Or(has(D.ct[d[t]], LBI), val(t) >= D.lb[d[t]]), Or(has(D.ct[d[t]], UBI), val(t) <= D.ub[d[t]]))))
# ------------------------------------------------------------------ singleton rows
def tighten(lower, v, s):
    """bounds (lb, ub, tag) after an attempt to tighten: (infeasible, changed, new bounds)"""
    lb, ub, t = s
    bad = And(Not(has(t, UBI)), v >= ub + TOL) if lower else And(Not(has(t, LBI)), v <= lb - TOL); ok = And(Not(bad), Or(has(t, LBI), v >= lb + TOL) if lower else Or(has(t, UBI), v <= ub - TOL))
    return simp(bad), simp(ok), (If(ok, v, lb) if lower else lb, ub if lower else If(ok, v, ub), If(ok, bclr(t, LBI if lower else UBI), to_bv(t, 8)))
AROWS = 32
@contract("SimpleReductions.c", "remove_stonrow", ["C13", "C14", "C05", "C03", "C04"])
def _(c):
    prob, row = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); cost = c.arr(c.get(c.get(prob, "obj"), "c")); T0 = Tape(c, D.info); F0, R0, U0 = (D.lst(f) for f in ("fixed_cols_to_delete", "rows_to_delete", "updated_activities"))
    c.requires(And(T0.wf(), F0.wf(), R0.wf(), U0.wf()), "lists well formed"); s0 = D.A.start[row]; k = D.A.i[s0]; a = D.A.x[s0]; t = D.rt[row]; p0, n = D.AT.start[k], simp(D.AT.end[k] - D.AT.start[k]); rl = simp(D.A.end[row] - s0)
    c.requires(And(a != 0, rl == 1, n >= 0), "the row has one entry"); fixed = has(D.ct[k], FIXED); eq = And(Not(fixed), has(t, EQ)); ineq = And(Not(fixed), Not(has(t, EQ)))
    c.requires(Implies(has(t, EQ), D.lhs[row] == D.rhs[row])); v = D.rhs[row] / a
    badeq = Or(And(Not(has(D.ct[k], UBI)), v >= D.ub[k] + TOL), And(Not(has(D.ct[k], LBI)), v <= D.lb[k] - TOL)); did = simp(And(eq, Not(badeq)))
    b0 = (D.lb[k], D.ub[k], D.ct[k]); hasr, hasl = Not(has(t, RHSI)), Not(has(t, LHSI)); vl = D.lhs[row] / a
    def both(pos_):          # right side first, then the left one
        bad1, ok1, b1 = tighten(not pos_, v, b0); b1 = tuple(If(hasr, x, to_bv(y, 8) if z3.is_bv(x) else y) for x, y in zip(b1, b0)); bad2, ok2, b2 = tighten(pos_, vl, b1); b2 = tuple(If(hasl, x, y) for x, y in zip(b2, b1))
        return And(hasr, bad1), And(hasr, ok1), And(hasl, bad2), And(hasl, ok2), b2, b1
    P_, N_ = both(True), both(False); sel = lambda x, y: If(a > 0, x, y); bad1, ok1, bad2, ok2 = (simp(sel(P_[z], N_[z])) for z in range(4)); b2 = tuple(sel(x, y) for x, y in zip(P_[4], N_[4]))
    gone = simp(And(ineq, Not(bad1), Not(bad2)))
    c.modifies(D.pb, lo=k, hi=k + 1, when=simp(Not(fixed))); c.modifies(D.pct, lo=k, hi=k + 1, when=simp(Not(fixed))); c.modifies(D.prt, lo=row, hi=row + 1, when=simp(Or(did, gone))); c.modifies(D.prs, lo=row, hi=row + 1, when=did); c.modifies(c.get(D.pA, "p"), "end", lo=row, hi=row + 1, when=did); c.modifies(D.pA, "nnz", when=did); F0.grows(1, did); R0.grows(1, gone); U0.grows(); T0.grows(); D.modifies_act()
    yield
    N = Cons(c, cons).mtx(); r = rc(c)
    c.ensures("verdict", r == If(fixed, UNCH, If(Or(And(eq, badeq), And(ineq, Or(bad1, bad2))), INFEAS, RED)))
    F1, R1, T1 = F0.now(), R0.now(), Tape(c, D.info)
    c.ensures("an equation fixes the variable", Implies(did, And(N.lb[k] == v, N.ub[k] == v, eqt(N.ct[k], bor(D.ct[k], FIXED)), F1.n == F0.n + 1, F1.a[F0.n] == k)))
    c.ensures("the equation is gone", Implies(did, And(eqt(N.rt[row], z3.BitVecVal(RIN, 8)), N.rs[row] == -1, N.A.end[row] == s0, c.get(D.pA, "nnz") == D.A.nnz - 1)))
    c.ensures("an inequality tightens the bounds", Implies(gone, And(N.lb[k] == b2[0], N.ub[k] == b2[1], eqt(N.ct[k], b2[2]))))
    c.ensures("the inequality is gone", Implies(gone, And(eqt(N.rt[row], bor(t, RIN)), R1.n == R0.n + 1, R1.a[R0.n] == row)))
    rows, vals = Off(D.AT.i, p0), Off(D.AT.x, p0)
    _, e = record(c, T0, D.info, FC, [k, None, (rows, n)], [v, cost[k], (vals, n)], when=did)
    _, e = record(c, T0, D.info, AROWS, [row, (rows, n)], [a, (vals, n)], k=1, base=e, when=did); record(c, T0, D.info, DROW, [row], [cost[k] / a], k=2, base=e, when=did)
    c.ensures("records for the equation", Implies(did, T1.n == T0.n + 3))
    n1, n2 = If(ok1, 2, 0), If(ok2, 2, 0); c.ensures("records for the inequality", Implies(gone, And(T1.n == T0.n + n1 + n2 + 1, isbv(T1.type[T0.n + n1 + n2], DROW), T1.indices[T1.starts[T0.n + n1 + n2]] == row, T1.vals[T1.starts[T0.n + n1 + n2]] == 0)))
    l1 = sel(1, 0); o1 = sel(D.lb[k], D.ub[k]); e1 = simp(T0.end + If(ok1, 2 + 2, 0))
    _, ee = record(c, T0, D.info, BNO, [k, l1], [v, o1], when=simp(And(gone, ok1))); record(c, T0, D.info, BTHE, [row, (Off(D.A.i, s0), rl)], [z3.RealVal(1), (Off(D.A.x, s0), rl)], k=1, base=ee, when=simp(And(gone, ok1)))
    w = simp(And(gone, ok2)); r2 = T0.n + n1; e2 = T1.starts[r2]; b1 = tuple(sel(x, y) for x, y in zip(P_[5], N_[5]))
    c.ensures("record of the second bound", Implies(w, And(isbv(T1.type[r2], BNO), isbv(T1.type[r2 + 1], BTHE), T1.starts[r2 + 1] == e2 + 2, T1.indices[e2] == k, T1.indices[e2 + 1] == sel(0, 1), T1.vals[e2] == vl, T1.vals[e2 + 1] == sel(b1[1], b1[0]), T1.indices[e2 + 2] == row, T1.indices[e2 + 3] == k, T1.vals[e2 + 2] == 1, T1.vals[e2 + 3] == a)))
    c.ensures("lists well formed", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, F1.wf(), F1.n >= F0.n, R1.wf(), R1.n >= R0.n, U0.now().wf(), U0.now().n >= U0.n))
# ------------------------------------------------------------------ redundant sides and rows
def verdict(act, lhs, rhs, t):
    """(infeasible, right side redundant, left side redundant)"""
    r, l = Not(has(t, RHSI)), Not(has(t, LHSI)); i1 = And(r, act["n_inf_min"] == 0, act["min"] >= rhs + TOL); i2 = And(l, act["n_inf_max"] == 0, act["max"] <= lhs - TOL)
    return Or(i1, i2), And(r, act["n_inf_max"] == 0, act["max"] <= rhs + TOL, Not(i1)), And(l, act["n_inf_min"] == 0, act["min"] >= lhs - TOL, Not(i2))
@contract("SimpleReductions.c", "check_activity", ["C05", "C13", "C02"])
def _(c):
    pact, lhs, rhs, t = c.args; i, r, l = verdict({f: c.get(pact, f) for f in ACT[:4]}, lhs, rhs, t)
    yield
    c.ensures("infeasible or the redundant sides", eqt(c.result, If(i, z3.BitVecVal(16, 8), If(r, z3.BitVecVal(2, 8), z3.BitVecVal(0, 8)) | If(l, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))))
@contract("SimpleReductions.c", "check_activities", ["C05", "C22", "C13", "C23", "C02", "C03"], opaque={"delete_inactive_rows": "delete_inactive_rows/frame"}, bmc=(2,))
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); U0, R0, T0 = D.lst("updated_activities"), D.lst("rows_to_delete"), Tape(c, D.info); d = U0.a; S = c.arr(D.pact); plk = c.get(D.st, "col_locks"); lk = c.arr(plk)
    for x in (U0, R0, T0, *(D.lst(f) for f in ("empty_cols", "ston_cols"))): c.requires(x.wf(), "lists well formed")
    inv = c.ghost("inverse", IA); q, z = c.ghost("row"), c.ghost("column"); j = c.ghost("place"); c.requires(c.every(d, 0, U0.n, lambda i, v: inv[v] == i), "rows listed once"); c.requires(c.forall(0, U0.n, lambda i: D.A.start[d[i]] <= D.A.end[d[i]]), "row ranges"); c.requires(And(0 <= j, j < U0.n))
    def v(r):
        act = {f: getattr(S, f)[r] for f in ACT[:4]}; skip = Or(has(D.rt[r], RIN | EQ), D.rs[r] <= 1); i, rr, ll = verdict(act, D.lhs[r], D.rhs[r], D.rt[r]); inf = And(Not(skip), i)
        L_, R_ = Or(ll, has(D.rt[r], LHSI)), Or(rr, has(D.rt[r], RHSI)); ok = And(Not(skip), Not(i))
        # an infeasible row has a finite side and no redundant one
        return simp(inf), simp(And(Not(skip), L_, R_, Or(Not(i), And(has(D.rt[r], LHSI), has(D.rt[r], RHSI))))), simp(And(ok, ll, Not(R_))), simp(And(ok, rr, Not(L_)))
    inr = lambda r, hi: And(0 <= inv[r], inv[r] < hi, d[inv[r]] == r)
    c.modifies(D.prt, lo=0, hi=None); c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); R0.grows(); T0.grows()
    # the deletion at the end
    for f in ("up", "down"): c.modifies(plk, f, lo=0, hi=None)
    c.modifies(D.prs, lo=0, hi=None); c.modifies(D.pcs, lo=0, hi=None); c.modifies(c.get(D.pA, "p"), "end", lo=0, hi=None); c.modifies(c.get(D.pT, "p"), "end", lo=0, hi=None); c.modifies(c.get(D.pT, "i"), lo=0, hi=None); c.modifies(c.get(D.pT, "x"), lo=0, hi=None); c.modifies(D.pA, "nnz"); c.modifies(D.pT, "nnz")
    for f in ("empty_cols", "ston_cols"): D.lst(f).grows()
    pc = lambda i: c.count(D.A.start[d[i]], D.A.end[d[i]], lambda t: And(D.A.i[t] == z, D.A.x[t] > 0)); nc = lambda i: c.count(D.A.start[d[i]], D.A.end[d[i]], lambda t: And(D.A.i[t] == z, D.A.x[t] <= 0))
    pch = lambda i, h: c.count(D.A.start[d[i]], h, lambda t: And(D.A.i[t] == z, D.A.x[t] > 0)); nch = lambda i, h: c.count(D.A.start[d[i]], h, lambda t: And(D.A.i[t] == z, D.A.x[t] <= 0))
    UP_ = lambda hi: c.sum(0, hi, lambda i: If(v(d[i])[2], nc(i), 0) + If(v(d[i])[3], pc(i), 0), "isum"); DN_ = lambda hi: c.sum(0, hi, lambda i: If(v(d[i])[2], pc(i), 0) + If(v(d[i])[3], nc(i), 0), "isum")
    both = lambda hi: c.count(0, hi, lambda i: v(d[i])[1])
    c.hint(j)
    def row(N, r, i):
        inf, g, l, rr = v(r); on = inr(r, i)
        return [("tag of every row", eqt(N.rt[r], If(And(on, g), bor(D.rt[r], RIN), If(And(on, l), z3.BitVecVal(1, 8), If(And(on, rr), z3.BitVecVal(2, 8), to_bv(D.rt[r], 8)))))), ("left side of every row", N.lhs[r] == If(And(on, l), -INF, D.lhs[r])), ("right side of every row", N.rhs[r] == If(And(on, rr), INF, D.rhs[r]))]
    def state(c2, i, r):
        N = Cons(c2, cons); R1, T1 = R0.now(c2), Tape(c2, D.info); b = both(i); rec = T0.n + both(j)
        return row(N, r, i) + [("no infeasible row so far", c.forall(0, i, lambda t: Not(v(d[t])[0]))), ("lists well formed", And(R1.wf(), T1.wf(), T1.n == T0.n + b, T1.end == T0.end + b)), ("one record per redundant row", Implies(And(j < i, v(d[j])[1]), And(isbv(T1.type[rec], DROW), T1.starts[rec] == T0.end + both(j), T1.indices[T0.end + both(j)] == d[j], T1.vals[T0.end + both(j)] == 0)))]
    def listed(c2, i):
        R1 = R0.now(c2); b = both(i); return [("redundant rows are listed for deletion", And(R1.n == R0.n + b, Implies(And(j < i, v(d[j])[1]), And(both(j) < b, R1.a[R0.n + both(j)] == d[j]))))]
    def rest(c2, i): N = Cons(c2, cons); return [("rows to come", c.forall(i, U0.n, lambda t: And(eqt(N.rt[d[t]], D.rt[d[t]]), N.lhs[d[t]] == D.lhs[d[t]], N.rhs[d[t]] == D.rhs[d[t]])))]
    def locks(c2, u, w): N = c2.arr(plk); return [("opposing counts follow", And(N.up[z] == lk.up[z] - u, N.down[z] == lk.down[z] - w))]
    c.loop(0, lambda L: state(c.at(L), L["i"], q) + listed(c.at(L), L["i"]) + rest(c.at(L), L["i"]) + locks(c.at(L), UP_(L["i"]), DN_(L["i"])) + [("range", And(0 <= L["i"], L["i"] <= U0.n))])
    c.loop(1, lambda L: locks(c.at(L), UP_(L["i"]) + nch(L["i"], L["j"]), DN_(L["i"]) + pch(L["i"], L["j"])) + [("in the row", L["j"] >= D.A.start[d[L["i"]]])])
    c.loop(2, lambda L: locks(c.at(L), UP_(L["i"]) + pch(L["i"], L["j"]), DN_(L["i"]) + nch(L["i"], L["j"])) + [("in the row", L["j"] >= D.A.start[d[L["i"]]])])
    c.before("delete_inactive_rows", lambda c2, a: locks(c2, UP_(U0.n), DN_(U0.n)) + listed(c2, U0.n))
    yield
    c.ensures("infeasible exactly when a row's activity shows it", rc(c) == If(c.exists(0, U0.n, lambda t: v(d[t])[0]), INFEAS, UNCH))
    for n, f in state(c, U0.n, q)[:-2]: c.ensures(n, Implies(rc(c) != INFEAS, f))
    for n, f in state(c, U0.n, q)[-2:]: c.ensures(n, Implies(rc(c) != INFEAS, f))
def inner_frame(c, D, rows=True):
    """what the deletions at the end of a phase may change"""
    for f in ("up", "down"): c.modifies(c.get(D.st, "col_locks"), f, lo=0, hi=None)
    c.modifies(D.prs, lo=0, hi=None); c.modifies(D.pcs, lo=0, hi=None)
    for P_ in (D.pA, D.pT): c.modifies(c.get(P_, "p"), "end", lo=0, hi=None); c.modifies(c.get(P_, "i"), lo=0, hi=None); c.modifies(c.get(P_, "x"), lo=0, hi=None); c.modifies(P_, "nnz")
    for f in ("empty_cols", "ston_cols", "empty_rows", "ston_rows", "dton_rows"): D.lst(f).grows()
    for f in ("rows_to_delete", "fixed_cols_to_delete", "sub_cols_to_delete"): c.modifies(D.lst(f).v, "len")
ALL8 = ("empty_cols", "ston_cols", "empty_rows", "ston_rows", "dton_rows", "rows_to_delete", "fixed_cols_to_delete", "sub_cols_to_delete", "updated_activities")
@contract("SimpleReductions.c", "remove_ston_rows", ["C13", "C14", "C05"], opaque=DEL, bmc=(1, 2))
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}; S0 = Ls["ston_rows"]; d = S0.a
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    inv = c.ghost("inverse", IA); c.requires(c.every(d, 0, S0.n, lambda i, v: inv[v] == i), "rows listed once"); k = lambda i: D.A.i[D.A.start[d[i]]]
    c.requires(c.forall(0, S0.n, lambda i: And(D.A.end[d[i]] == D.A.start[d[i]] + 1, D.A.x[D.A.start[d[i]]] != 0, Implies(has(D.rt[d[i]], EQ), D.lhs[d[i]] == D.rhs[d[i]]), D.AT.start[k(i)] <= D.AT.end[k(i)], Not(has(D.rt[d[i]], RIN)))), "rows with one entry")
    adjust_first(c); inner_frame(c, D); T0.grows(); Ls["updated_activities"].grows(); D.modifies_act(); c.modifies(D.prt, lo=0, hi=None); c.modifies(D.pct, lo=0, hi=None); c.modifies(D.pb, lo=0, hi=None); c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); c.modifies(c.get(prob, "obj"), "offset")
    for f in ("rows_to_delete", "fixed_cols_to_delete"): Ls[f].grows()
    c.modifies(S0.d, lo=0, hi=None)
    done = lambda N, i: Or(has(N.rt[d[i]], RIN), has(N.ct[k(i)], FIXED))
    def com(c2, r, eq):
        N = Cons(c2, cons).mtx(); T1 = Tape(c2, D.info)
        return [("lists well formed", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, *[And(x.now(c2).wf(), x.now(c2).n >= x.n) for f, x in Ls.items() if f != "ston_rows"])),
                ("rows to come", c.forall(0, S0.n, lambda i: Implies(Not(has(N.rt[d[i]], RIN)), And(eqt(N.rt[d[i]], D.rt[d[i]]), N.A.end[d[i]] == D.A.end[d[i]])))),
                ("removed rows are marked only", c.forall(0, S0.n, lambda i: Or(has(N.rt[d[i]], RIN), eqt(N.rt[d[i]], D.rt[d[i]]))))]
    def first(c2, i): N = Cons(c2, cons); return [("equations so far are gone or their variable is fixed", c.forall(0, i, lambda t: Implies(has(D.rt[d[t]], EQ), done(N, t)))), ("no inequality gone before the equations", c.forall(0, S0.n, lambda t: Implies(Not(has(D.rt[d[t]], EQ)), Not(has(N.rt[d[t]], RIN)))))]
    def second(c2, i): N = Cons(c2, cons); return [("equations are gone or their variable is fixed", c.forall(0, S0.n, lambda t: Implies(has(D.rt[d[t]], EQ), done(N, t)))), ("inequalities so far are gone or their variable is fixed", c.forall(0, i, lambda t: Implies(Not(has(D.rt[d[t]], EQ)), done(N, t))))]
    rng = lambda L: [("range", And(0 <= L["i"], L["i"] <= S0.n))]
    c.loop(0, lambda L: com(c.at(L), L["i"], True) + first(c.at(L), L["i"]) + rng(L)); c.loop(1, lambda L: com(c.at(L), L["i"], False) + second(c.at(L), L["i"]) + rng(L))
    c.before("delete_inactive_rows", lambda c2, a: [("every row with one entry is gone or its variable is fixed", c.forall(0, S0.n, lambda t: done(Cons(c2, cons), t))), ("list emptied", c2.get(S0.v, "len") == 0), ("both copies count the same entries", c2.get(D.pA, "nnz") == c2.get(D.pT, "nnz"))])
    yield
    N = Cons(c, cons)
    c.ensures("unchanged exactly when there is nothing to do", (rc(c) == UNCH) == (S0.n == 0)); c.ensures("status", Or(rc(c) == UNCH, rc(c) == INFEAS, rc(c) == RED))
    c.ensures("every row with one entry is gone or its variable is fixed", Implies(rc(c) == RED, c.forall(0, S0.n, lambda t: done(N, t))))
@contract("SimpleReductions.c", "remove_variables_with_close_bounds", ["C05", "C13"], opaque={k: v for k, v in DEL.items() if "rows" not in k}, bmc=(2,))
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    c.requires(D.n >= 0); c.requires(c.forall(0, D.n, lambda k: D.AT.start[k] <= D.AT.end[k]), "column ranges"); q = c.ghost("column"); c.requires(And(0 <= q, q < D.n))
    adjust_first(c); inner_frame(c, D); T0.grows(); D.modifies_act(); c.modifies(D.pct, lo=0, hi=None); c.modifies(D.pb, lo=0, hi=None); c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); c.modifies(c.get(prob, "obj"), "offset")
    for f in ("fixed_cols_to_delete", "updated_activities"): Ls[f].grows()
    fin_ = lambda k: And(D.cs[k] >= 0, Not(has(D.ct[k], LBI)), Not(has(D.ct[k], UBI))); close = lambda k: And(fin_(k), D.cs[k] != 0, absr(D.lb[k] - D.ub[k]) <= TOL, D.lb[k] < D.ub[k] + TOL); bad = lambda k: And(fin_(k), D.lb[k] > D.ub[k] + TOL)
    def state(c2, i):
        N = Cons(c2, cons); T1 = Tape(c2, D.info); F1, F0 = Ls["fixed_cols_to_delete"].now(c2), Ls["fixed_cols_to_delete"]
        return [("no crossing bounds so far", c.forall(0, i, lambda k: Not(bad(k)))), ("variables with close bounds are fixed at their lower bound", And(N.lb[q] == D.lb[q], N.ub[q] == If(And(q < i, close(q)), D.lb[q], D.ub[q]), eqt(N.ct[q], If(And(q < i, close(q)), bor(D.ct[q], FIXED), D.ct[q])))),
                ("lists well formed", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, *[And(x.now(c2).wf(), x.now(c2).n >= x.n) for x in Ls.values()]))]
    def rest(c2, i): N = Cons(c2, cons); return [("columns to come", c.forall(i, D.n, lambda k: And(N.lb[k] == D.lb[k], N.ub[k] == D.ub[k], eqt(N.ct[k], D.ct[k]))))]
    c.loop(0, lambda L: state(c.at(L), L["ii"]) + rest(c.at(L), L["ii"]) + [("range", And(0 <= L["ii"], L["ii"] <= D.n))])
    yield
    c.ensures("infeasible exactly when bounds cross by more than the tolerance", rc(c) == If(c.exists(0, D.n, bad), INFEAS, UNCH))
    for n, f in state(c, D.n)[:2]: c.ensures(n, Implies(rc(c) == UNCH, f))
# ------------------------------------------------------------------ fixing by cost and opposing rows alone
def dual(ck, dn, up, t):
    """(unbounded, fix at lower, fix at upper, fix at minus infinity, fix at infinity)"""
    d0, u0, li, ui = dn == 0, up == 0, has(t, LBI), has(t, UBI)
    return [simp(x) for x in (Or(And(ck > 0, d0, li), And(ck < 0, u0, ui)), And(d0, Not(li), ck >= 0), And(u0, Not(ui), Or(ck < 0, And(ck == 0, Not(d0)))), And(ck == 0, d0, li), And(ck == 0, Not(d0), u0, ui))]
def dual_effect(c, D, N, k, ck, cls, on=True):
    unb, fl, fu, _, _ = cls; val = If(fl, D.lb[k], D.ub[k]); bad = Or(And(Not(has(D.ct[k], UBI)), val >= D.ub[k] + TOL), And(Not(has(D.ct[k], LBI)), val <= D.lb[k] - TOL)); did = And(on, Or(fl, fu), Not(bad))
    return did, val, And(N.lb[k] == If(did, val, D.lb[k]), N.ub[k] == If(did, val, D.ub[k]), eqt(N.ct[k], If(did, bor(D.ct[k], FIXED), to_bv(D.ct[k], 8))))
@contract("Simple_dual_fix.c", "_simple_dual_fix", ["C17", "C06", "C03"])
def _(c):
    cons, ck, lb, ub, lock, tag, col, out = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); O0, F0, U0 = Lst(c, out), D.lst("fixed_cols_to_delete"), D.lst("updated_activities"); s0, n = D.AT.start[col], simp(D.AT.end[col] - D.AT.start[col])
    c.requires(And(T0.wf(), O0.wf(), F0.wf(), U0.wf()), "lists well formed"); c.requires(And(lb == D.lb[col], ub == D.ub[col], eqt(tag, D.ct[col]), n >= 0), "arguments describe the column"); cls = dual(ck, lock["down"], lock["up"], tag); did, val, _ = dual_effect(c, D, D, col, ck, cls); did = simp(did)
    app = simp(Or(cls[3], cls[4])); c.modifies(D.pb, lo=col, hi=col + 1, when=did); c.modifies(D.pct, lo=col, hi=col + 1, when=did); F0.grows(1, did); U0.grows(None, did); T0.grows(1, n + 2, did); D.modifies_act(did); O0.grows(1, app)
    yield
    N = Cons(c, cons); F1, O1, T1 = F0.now(), O0.now(), Tape(c, D.info)
    c.ensures("unbounded or infeasible exactly when the cost pushes to a missing bound unopposed", rc(c) == If(cls[0], UNB, UNCH)); c.ensures("fixed at the bound the cost prefers", dual_effect(c, D, N, col, ck, cls)[2])
    c.ensures("listed for deletion", Implies(did, And(F1.n == F0.n + 1, F1.a[F0.n] == col))); record(c, T0, D.info, FC, [col, None, (Off(D.AT.i, s0), n)], [val, ck, (Off(D.AT.x, s0), n)], when=did); c.ensures("one record", T1.n == T0.n + If(did, 1, 0))
    c.ensures("noted for infinity with the sign of the side", If(app, And(O1.n == O0.n + 1, O1.a[O0.n] == If(cls[3], -col, col)), O1.n == O0.n)); c.ensures("lists well formed", And(T1.wf(), O1.wf(), F1.wf(), F1.n >= F0.n, U0.now().wf(), U0.now().n >= U0.n))
@contract("Simple_dual_fix.c", "simple_dual_fix", ["C17", "C06", "C13"], opaque=DEL, use={f"fix_col_to_{s}_inf": f"fix_col_to_{s}_inf/effect" for s in ("negative", "positive")}, bmc=(2,))
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}; pv = c.get(c.get(D.st, "work"), "int_vec"); O0 = Lst(c, pv); lk = c.arr(c.get(D.st, "col_locks")); cost = c.arr(c.get(c.get(prob, "obj"), "c"))
    for x in (T0, O0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    c.requires(D.n >= 0); c.requires(c.forall(0, D.n, lambda k: And(D.AT.start[k] <= D.AT.end[k], lk.up[k] >= 0, lk.down[k] >= 0, c.forall(D.AT.start[k], D.AT.end[k], lambda t: D.rs[D.AT.i[t]] >= 0))), "columns"); q = c.ghost("column"); c.requires(And(0 <= q, q < D.n)); c.hint(q)
    adjust_first(c); inner_frame(c, D); T0.grows(); D.modifies_act(); c.modifies(D.pct, lo=0, hi=None); c.modifies(D.prt, lo=0, hi=None); c.modifies(D.pb, lo=0, hi=None); c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); c.modifies(c.get(prob, "obj"), "offset"); c.modifies(pv, "len"); c.modifies(pv, "capacity"); c.modifies(O0.d, lo=0, hi=None)
    for f in ("fixed_cols_to_delete", "updated_activities", "rows_to_delete"): Ls[f].grows()
    if c.bmc: c.modifies_ptr(pv, "data")
    seen = lambda k: And(Not(has(D.ct[k], CIN)), Not(And(lk.up[k] > 0, lk.down[k] > 0))); cls = lambda k: [simp(And(seen(k), x)) for x in dual(cost[k], lk.down[k], lk.up[k], D.ct[k])]
    wfs = lambda c2: ("lists well formed", And(Tape(c2, D.info).wf(), Tape(c2, D.info).n >= T0.n, Tape(c2, D.info).end >= T0.end, *[And(x.now(c2).wf(), x.now(c2).n >= x.n) for x in Ls.values()], O0.now(c2).wf()))
    nn = lambda hi: c.count(0, hi, lambda k: Or(cls(k)[3], cls(k)[4]))          # columns noted for infinity
    def noted(c2, i):
        O = O0.now(c2); k3, k4 = cls(q)[3:]; return [("columns noted for infinity", And(O.n == nn(i), Implies(And(q < i, Or(k3, k4)), And(nn(q) < nn(i), O.a[nn(q)] == If(k3, -q, q))))),
            ("only unopposed columns with a missing bound are noted", c.forall(0, O.n, lambda t: And(-i < O.a[t], O.a[t] < i, cls(If(O.a[t] < 0, -O.a[t], O.a[t]))[3] == Or(O.a[t] < 0, And(O.a[t] == 0, lk.down[0] == 0)), Or(*cls(If(O.a[t] < 0, -O.a[t], O.a[t]))[3:]), nn(If(O.a[t] < 0, -O.a[t], O.a[t])) == t)))]
    def state(c2, i): N = Cons(c2, cons); return [("columns so far follow the rule", dual_effect(c, D, N, q, cost[q], cls(q), q < i)[2]), wfs(c2)]
    c.loop(0, lambda L: state(c.at(L), L["k"]) + noted(c.at(L), L["k"]) + [("verdict so far", If(c.exists(0, L["k"], lambda t: cls(t)[0]), to_int(L["status"]) == UNB, to_int(L["status"]) == UNCH)), ("columns to come", (lambda N: c.forall(L["k"], D.n, lambda k: And(N.lb[k] == D.lb[k], N.ub[k] == D.ub[k], eqt(N.ct[k], D.ct[k]))))(Cons(c.at(L), cons))), ("range", And(0 <= L["k"], L["k"] <= D.n))])
    def inf_state(c2, i):
        N = Cons(c2, cons); k3, k4 = cls(q)[3:]; done = And(Or(k3, k4), nn(q) < i)
        return [("columns noted so far are at their infinite bound", If(done, And(N.lb[q] == If(k3, -INF, INF), N.ub[q] == If(k3, -INF, INF), has(N.ct[q], FIXED)), dual_effect(c, D, N, q, cost[q], cls(q))[2])), wfs(c2)]
    c.loop(1, lambda L: inf_state(c.at(L), L["i"]) + [("range", And(0 <= L["i"])), ("column ranges", (lambda N: c.forall(0, D.n, lambda k: And(N.AT.start[k] <= N.AT.end[k], N.AT.end[k] <= D.AT.end[k])))(Cons(c.at(L), cons).mtx()))])
    yield
    N = Cons(c, cons)
    c.ensures("unbounded or infeasible exactly when the cost pushes to a missing bound unopposed", rc(c) == If(c.exists(0, D.n, lambda k: cls(k)[0]), UNB, UNCH))
    c.ensures("every column follows the rule", inf_state(c, nn(D.n))[0][1])
