"""Equations with two variables (C15, C05, C20-C22, C26, C27): one variable is replaced everywhere, its bounds move to the other one."""
from spec import *
import z3
from matrix import Mtx
from core import *
from locks import d_up, d_down
from activity import cmax, cmin, imax, imin, pos
from stoncols import RowV
from postsolve import AROW, SUBC, isbv
from simple import inner_frame, ALL8
from control import local
FILE = "DtonsEq.c"
SMALL = z3.RealVal("1/10000000000")
def member(rows, inv, r, lo, hi): return And(lo <= inv[r], inv[r] < hi, rows[inv[r]] == r)
def col_sorted(c, M, k): return c.forall(M.start[k], M.end[k], lambda t: c.forall(t + 1, M.end[k], lambda u: M.i[t] < M.i[u]))
def fill(c, M, inv, j, k, hi=None): return c.count(M.start[k], M.end[k] if hi is None else hi, lambda t: Not(member(M.i, inv, M.i[t], M.start[j], M.end[j])))
def two_cols(c, M, j, k, inv, q):
    """column j stays, column k is substituted; q is the place of their common row in column k"""
    return [(And(0 <= j, j < M.m, 0 <= k, k < M.m, j != k, M.start[j] < M.end[j], M.start[k] < M.end[k]), "two columns"), (c.every(M.i, M.start[j], M.end[j], lambda t, r: inv[r] == t), "rows of the column occur once"), (And(M.start[k] <= q, q < M.end[k], member(M.i, inv, M.i[q], M.start[j], M.end[j])), "a common row"), (col_sorted(c, M, j), "sorted"), (col_sorted(c, M, k), "sorted")]
def moves(c, M, when=None):
    for f in (M.pi, M.px): c.modifies(f, lo=0, hi=M.start[M.m], when=when)
    c.modifies(M.pp, "start", lo=0, hi=M.m, when=when); c.modifies(M.pp, "end", lo=0, hi=M.m, when=when)
def columns_kept(c, A, M, gone):
    N = Mtx(c, A); r1, j1, r2 = c.any("row", "entry", "later_row"); inr = And(0 <= r1, r1 < M.m, r1 < r2, r2 <= M.m); c.ensures("failure changes nothing", Implies(gone, c.forall(0, M.m, lambda r: And(N.start[r] == M.start[r], N.end[r] == M.end[r]))))
    c.ensures_any("columns keep their length and order", [r1, r2], Implies(inr, And(N.end[r1] - N.start[r1] == M.len(r1), N.start[r1] >= 0, N.end[r1] <= N.start[r2])))
    c.ensures_any("every entry of every column is kept", [r1, j1], Implies(And(0 <= r1, r1 < M.m, 0 <= j1, j1 < M.len(r1)), And(N.i[N.start[r1] + j1] == M.i[M.start[r1] + j1], N.x[N.start[r1] + j1] == M.x[M.start[r1] + j1]))); return N
@contract(FILE, "sufficient_space_AT", ["C15", "C27", "C20"], bmc=(2, 3))
def _(c):
    A, j, k, lim = c.args; M = Mtx(c, A); inv, q = c.ghost("inverse", IA), c.ghost("common"); sj, ej, sk, ek = M.start[j], M.end[j], M.start[k], M.end[k]; c.hint(q); c.monotone()
    for f, n in two_cols(c, M, j, k, inv, q): c.requires(f, n)
    c.requires(M.layout(), "columns do not overlap"); M.room(c); moves(c, M)
    c.loop(0, lambda L: (lambda jj, kk: [("range", And(0 <= jj, jj <= ej - sj, 0 <= kk, kk <= ek - sk)), ("rows of the second column not in the first so far", L["fill_in"] == fill(c, M, inv, j, k, simp(sk + kk)) - 1), ("passed rows are smaller", Implies(kk < ek - sk, c.forall(sj, sj + jj, lambda t: M.i[t] < M.i[sk + kk])))])(L["jj"], L["kk"]))
    yield
    ok = tobool(c.result); N = columns_kept(c, A, M, Not(ok)); c.ensures("success means room for every new entry", Implies(ok, N.start[j + 1] - N.end[j] >= fill(c, M, inv, j, k) - 1))
def ratio_ok(a, b): x = absr(a / b); return And(x <= 1000, x >= z3.RealVal("1/1000"))
def candidates(c, M, cols):
    """both variables of the equation may be the one that stays"""
    g = [(c.ghost(f"inverse{i}", IA), c.ghost(f"common{i}")) for i in (0, 1)]
    for i in (0, 1):
        for f, n in two_cols(c, M, cols[i], cols[1 - i], *g[i]): c.requires(f, n)
    c.requires(M.layout(), "columns do not overlap"); M.room(c); return g
def chosen(c, M, N, cols, vals, sizes, g, j, k, ok):
    for i in (0, 1):
        w = And(ok, j == cols[i]); c.ensures(f"variable {i} stays: room for every new entry", Implies(w, And(k == cols[1 - i], N.start[cols[i] + 1] - N.end[cols[i]] >= fill(c, M, g[i][0], cols[i], cols[1 - i]) - 1))); c.ensures(f"variable {i} stays: pivot of similar size", Implies(w, ratio_ok(vals[i], vals[1 - i]))); c.ensures(f"variable {i} stays: a variable of this row only does not stay", Implies(w, Or(sizes[i] != 1, sizes[1 - i] == 1)))
    c.ensures("one of the two stays", Implies(ok, Or(j == cols[0], j == cols[1])))
@contract(FILE, "can_dton_be_eliminated", ["C15", "C27"], bmc=(2,))
def _(c):
    A, pv, pc, ps, pk, z0, z1, lim = c.args; M = Mtx(c, A); v, k = c.arr(pv), c.arr(pc); cols, vals = (k[0], k[1]), (v[0], v[1]); g = candidates(c, M, cols); c.requires(And(vals[0] != 0, vals[1] != 0)); moves(c, M); c.modifies(ps); c.modifies(pk)
    c.at_call("sufficient_space_AT", lambda L, a: dict(inverse=If(a[1] == cols[0], g[0][0], g[1][0]), common=If(a[1] == cols[0], g[0][1], g[1][1])))
    yield
    j, k = c.get(ps), c.get(pk); ok = j != -1; N = columns_kept(c, A, M, Not(ok)); c.ensures("both or none", (j == -1) == (k == -1)); chosen(c, M, N, cols, vals, (z0, z1), g, j, k, ok)
@contract(FILE, "find_substitution", ["C15", "C27"], bmc=(2,))
def _(c):
    row, tags, pj, pk, paik, paij, A, sizes, lim, work, pn = c.args; M = Mtx(c, A); r = RowV(c, row); T, Z = c.arr(tags), c.arr(sizes); n0 = c.get(pn); cols, vals = (r.k[0], r.k[1]), (r.v[0], r.v[1]); g = [(c.ghost(f"inverse{i}", IA), c.ghost(f"common{i}")) for i in (0, 1)]; go = simp(And(r.n >= 2, Not(has(T[cols[0]], CIN)), Not(has(T[cols[1]], CIN)))); c.requires(And(n0 >= 0, M.layout()), "columns do not overlap"); M.room(c)
    for i in (0, 1):
        for f, n in two_cols(c, M, cols[i], cols[1 - i], *g[i]): c.requires(Implies(go, f), n)
    c.requires(Implies(go, And(vals[0] != 0, vals[1] != 0))); moves(c, M, go); [c.modifies(p) for p in (pj, pk, paik, paij, pn)]; c.modifies(work, lo=n0, hi=n0 + 1)
    c.at_call("can_dton_be_eliminated", lambda L, a: {f"{n}{i}": g[i][x] for i in (0, 1) for x, n in enumerate(("inverse", "common"))})
    yield
    j, k = c.get(pj), c.get(pk); ok = And(go, j != -1); rej = And(go, j == -1); N = columns_kept(c, A, M, Not(ok)); c.ensures("skipped rows have no substitution", Implies(Not(go), j == -1)); c.ensures("rejected rows are tried again", c.get(pn) == n0 + If(rej, 1, 0)); c.ensures("by number", Implies(rej, c.arr(work)[n0] == r.i))
    chosen(c, M, N, cols, vals, (Z[cols[0]], Z[cols[1]]), g, j, k, ok); c.ensures("coefficients of the two variables", Implies(ok, And(c.get(paij) == If(j == cols[0], vals[0], vals[1]), c.get(paik) == If(j == cols[0], vals[1], vals[0]))))
def bound_moves(c, D, stay, aij, aik, rhs, lbs, ubs, t):
    """the bounds that the substituted variable puts on the one that stays, in the order they are applied: (applies, candidate, is upper)"""
    same = aik * aij > 0; same = Or(And(aik > 0, aij > 0), And(aik < 0, aij < 0)); return [(Not(has(t, LBI)), (rhs - aik * lbs) / aij, same), (Not(has(t, UBI)), (rhs - aik * ubs) / aij, Not(same))]
@contract(FILE, "modify_bounds", ["C15", "C05"], use=FR)
def _(c):
    cons, i, aij, aik, rhs, lbs, ubs, stay, t = c.args; D = Cons(c, cons).mtx(); T0, U0 = Tape(c, D.info), D.lst("updated_activities"); c.requires(And(T0.wf(), U0.wf()), "lists well formed"); c.requires(And(aij != 0, aik != 0, Not(has(D.ct[stay], CIN)), D.A.start[i] <= D.A.end[i], D.AT.start[stay] <= D.AT.end[stay]), "the equation")
    (ga, va, up), (gb, vb, _) = bound_moves(c, D, stay, aij, aik, rhs, lbs, ubs, t); L0, U_ = D.lb[stay], D.ub[stay]; nl, nu = has(D.ct[stay], LBI), has(D.ct[stay], UBI)
    def step(v, upper, lb, ub, li, ui):
        """what one tightening does: (crossed, lb, ub, lb infinite, ub infinite)"""
        bad = If(upper, And(Not(li), v <= lb - TOL), And(Not(ui), v >= ub + TOL)); tu = And(upper, Or(ui, v <= ub - TOL)); tl = And(Not(upper), Or(li, v >= lb + TOL)); return bad, If(tl, v, lb), If(tu, v, ub), And(li, Not(tl)), And(ui, Not(tu))
    b1, l1, u1, li1, ui1 = step(va, up, L0, U_, nl, nu); bad1 = And(ga, b1); l1, u1, li1, ui1 = If(ga, l1, L0), If(ga, u1, U_), If(ga, li1, nl), If(ga, ui1, nu); b2, l2, u2, li2, ui2 = step(vb, Not(up), l1, u1, li1, ui1); bad2 = And(gb, b2)
    l2, u2, li2, ui2 = If(gb, l2, l1), If(gb, u2, u1), If(gb, li2, li1), If(gb, ui2, ui1); c.modifies(D.pb, "lb", lo=stay, hi=stay + 1); c.modifies(D.pb, "ub", lo=stay, hi=stay + 1); c.modifies(D.pct, lo=stay, hi=stay + 1); U0.grows(); D.modifies_act(); T0.grows()
    yield
    N = Cons(c, cons); ok = And(Not(bad1), Not(bad2)); c.ensures("infeasible exactly when a moved bound crosses", (rc(c) == INFEAS) == Not(ok)); c.ensures("otherwise unchanged is reported", Implies(ok, rc(c) == UNCH))
    c.ensures("bounds of the variable that stays", Implies(ok, And(Implies(Not(li2), N.lb[stay] == l2), Implies(Not(ui2), N.ub[stay] == u2)))); c.ensures("tags of the variable that stays", Implies(ok, And(has(N.ct[stay], LBI) == li2, has(N.ct[stay], UBI) == ui2, has(N.ct[stay], CIN) == False)))
    c.ensures("every finite bound of the substituted variable is implied up to the tolerance", Implies(ok, And(*[Implies(g, And(Implies(u, And(Not(has(N.ct[stay], UBI)), N.ub[stay] <= v + TOL)), Implies(Not(u), And(Not(has(N.ct[stay], LBI)), N.lb[stay] >= v - TOL)))) for g, v, u in ((ga, va, up), (gb, vb, Not(up)))])))
    T1 = Tape(c, D.info); c.ensures("lists well formed", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, U0.now().wf(), U0.now().n >= U0.n))
@contract(FILE, "subst_col_in_obj_dton", ["C15", "C01"])
def _(c):
    obj, stay, subst, aik, aij, rhs = c.args; p = c.get(obj, "c"); C = c.arr(p); o = c.get(obj, "offset"); c.requires(And(aik != 0, stay != subst)); c.modifies(p, lo=stay, hi=stay + 1); c.modifies(obj, "offset")
    yield
    x = C[stay] - aij / aik * C[subst]; c.ensures("cost of the variable that stays", c.arr(p)[stay] == If(And(C[subst] != 0, absr(x) <= SMALL), 0, x)); c.ensures("offset", c.get(obj, "offset") == o + rhs / aik * C[subst])
@contract(FILE, "update_lhs_and_rhs", ["C15"])
def _(c):
    pl, pr, aik, t, rhs, a = c.args; l, r = c.get(pl), c.get(pr); c.requires(aik != 0); c.modifies(pl); c.modifies(pr)
    yield
    c.ensures("finite sides move by the substituted part", And(c.get(pl) == If(has(t, LHSI), l, l - a / aik * rhs), c.get(pr) == If(has(t, RHSI), r, r - a / aik * rhs)))
class Subst:
    """what the substitution does to one row: p place of the substituted variable, s place of the one that stays"""
    def __init__(s_, M, q, j, k, aij, aik, p, s):
        s_.M, s_.b, s_.e, s_.p, s_.s = M, M.start[q], M.end[q], p, s; s_.found = And(s < s_.e, M.i[s] == j); s_.old = If(s_.found, M.x[s], 0); s_.coef = M.x[p]; x = s_.old - aij / aik * s_.coef; s_.new = If(absr(x) <= SMALL, 0, x); s_.gone = And(s_.found, s_.new == 0); s_.come = And(Not(s_.found), s_.new != 0)
        s_.d = -1 - If(s_.gone, 1, 0) + If(s_.come, 1, 0); s_.ps = s - If(p < s, 1, 0)
    def to(s, t): return t - If(t > s.p, 1, 0) - If(And(s.gone, t > s.s), 1, 0) + If(And(s.come, t >= s.s), 1, 0)
    def back(s, u):
        """the old place of the entry now at u (not the one that stays)"""
        v = u - If(And(s.come, u > s.ps), 1, 0) + If(And(s.gone, u >= s.ps), 1, 0); return v + If(v >= s.p, 1, 0)
    def kept(s, c, N): return c.forall(s.b, s.e, lambda t: Implies(And(t != s.p, Not(And(s.found, t == s.s))), And(N.i[s.to(t)] == s.M.i[t], N.x[s.to(t)] == s.M.x[t])))
def placed(c, M, b, e, col, p): return And(b <= p, p <= e, c.forall(b, p, lambda t: M.i[t] < col), c.forall(p, e, lambda t: M.i[t] >= col))
@contract(FILE, "update_row_A_dton", ["C15", "C20", "C26", "C02", "C03", "C04"], safe=True)
def _(c):
    A, i, q, j, k, aij, aik, size, info = c.args; M = Mtx(c, A); T0 = Tape(c, info); c.requires(T0.wf(), "tape well formed"); T0.room(); b, e = M.start[q], M.end[q]; p = c.ghost("position"); s = c.ghost("place"); n0 = c.get(size)
    c.requires(And(0 <= q, q < M.m, 0 <= b, b <= p, p < e, M.i[p] == k, j != k, aik != 0), "the entry of the substituted variable"); c.requires(placed(c, M, b, e, j, s), "place of the variable that stays"); c.requires(c.forall(b, e, lambda t: c.forall(t + 1, e, lambda u: M.i[t] < M.i[u])), "the row is sorted")
    c.valid(A, 1); c.valid(M.pp, M.m + 1); c.valid(M.pi, e); c.valid(M.px, e); c.valid(size, 1); c.valid(info, 1)
    S = Subst(M, q, j, k, aij, aik, p, s)
    for f in (M.pi, M.px): c.modifies(f, lo=b, hi=e)
    c.modifies(M.pp, "end", lo=q, hi=q + 1); c.modifies(A, "nnz"); c.modifies(size); T0.grows(1, 2)
    if c.mode == "verify":
        for f in ("type", "starts", "indices", "vals"): c.modifies_ptr(getattr(T0, f + "_v"), "data")
    c.loop(0, lambda L: [("not found yet", And(b <= L["ii"], L["subst_idx"] == -1, L["ii"] <= p))]); c.loop(1, lambda L: [("smaller so far", And(b <= L["ii"], L["insertion"] == e, c.forall(b, L["ii"], lambda t: M.i[t] < j)))])
    yield
    N = Mtx(c, A); c.ensures("old and new coefficients", And(c.result["old_coeff_stay"] == S.old, c.result["old_coeff_subst"] == S.coef, c.result["new_coeff_stay"] == S.new)); c.ensures("counts follow", And(N.end[q] == e + S.d, N.nnz == M.nnz + S.d, c.get(size) == n0 + S.d))
    c.ensures("other entries keep value and order", S.kept(c, N)); c.ensures("the new coefficient is stored", Implies(S.new != 0, And(N.i[S.ps] == j, N.x[S.ps] == S.new)))
    T1, _ = record(c, T0, info, AROW, [i, q], [-S.coef / aik, None]); c.ensures("one record more", And(T1.n == T0.n + 1, T1.wf()))
def well_rows(c, D, k, j, i, invk, pp, sp):
    """rows of the substituted column: listed once, and where the two variables are in each"""
    A, T = D.A, D.AT; srt = lambda q: c.forall(A.start[q], A.end[q], lambda t: c.forall(t + 1, A.end[q], lambda u: A.i[t] < A.i[u]))
    return [(c.every(T.i, T.start[k], T.end[k], lambda t, q: And(invk[q] == t, 0 <= q, q < D.m)), "rows occur once"), (c.every(T.i, T.start[k], T.end[k], lambda t, q: Implies(q != i, And(A.start[q] <= pp[q], pp[q] < A.end[q], A.i[pp[q]] == k, placed(c, A, A.start[q], A.end[q], j, sp[q]), srt(q), D.rs[q] == A.len(q)))), "both variables in each row")]
@contract("Matrix.c", "insert_or_update_coeff", [], key="insert_or_update_coeff/effect", assumed="")
def _(c):
    A, row, col, val, size = c.args; M = Mtx(c, A)
    for f in (M.pi, M.px): c.modifies(f, lo=M.start[row], hi=M.start[row + 1])
    c.modifies(M.pp, "end", lo=row, hi=row + 1); c.modifies(A, "nnz"); c.modifies(size)
    yield
@contract("Activity.c", "update_activity_coeff_change", [], key="update_activity_coeff_change/effect", assumed="")
def _(c):
    for f in ("n_inf_min", "n_inf_max", "min", "max"): c.modifies(c.args[0], f)
    yield
FINE = ("the row: other entries keep value and order", "the row: new coefficient", "the row: its new coefficient in the column that stays", "the row: listed by its new length")
PARTS = dict(rows=["C15", "C20"], column=["C15", "C20", "C27"], state=["C15", "C21", "C22"], log=["C15", "C02", "C03", "C04"])
def subst_part(part):
    """the whole effect, in four parts: contents of the rows, contents of the column that stays, sides with activities, lists with records"""
    @contract(FILE, "execute_substitution", PARTS[part], key="execute_substitution/" + part, opaque={n: n + "/effect" for n in ({"insert_or_update_coeff"} if part != "column" else set()) | ({"update_activity_coeff_change"} if part != "state" else set())}, bmc=(2,), shards=8)
    def _(c): yield from substitution(c, part)
def substitution(c, part):
    cons, row, j, k, aij, aik, pn, ck = c.args; D = Cons(c, cons).mtx(); A, T = D.A, D.AT; r = RowV(c, row); i = r.i; T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ("empty_rows", "ston_rows", "empty_cols", "ston_cols", "updated_activities")}; sk, ek, sj, ej = T.start[k], T.end[k], T.start[j], T.end[j]; n0 = c.get(pn); locks = c.get(D.st, "col_locks"); work = c.get(c.get(D.st, "work"), "iwork_n_rows"); S0 = c.arr(D.pact); beta = D.rhs[i]
    invk, pp, sp, invj = (c.ghost(x, IA) for x in ("inverse", "position", "place", "inverse_stay"))
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    c.requires(And(0 <= j, j < D.n, 0 <= k, k < D.n, j != k, aij != 0, aik != 0, 0 <= i, i < D.m, D.n == T.m, D.m == A.m, n0 >= 0), "two columns"); c.requires(And(A.layout(), T.layout()), "rows and columns do not overlap"); c.requires(has(D.rt[i], RIN), "the equation is inactive")
    for f, n in well_rows(c, D, k, j, i, invk, pp, sp): c.requires(f, n)
    c.requires(c.every(T.i, sj, ej, lambda t, q: invj[q] == t), "rows of the column occur once"); c.requires(And(member(T.i, invj, i, sj, ej), D.cs[j] == ej - sj, D.cs[j] >= 1), "the column that stays"); c.requires(col_sorted(c, T, j), "sorted"); c.requires(ej - 1 + fill(c, T, invj, j, k) <= T.start[j + 1], "room for every new entry"); c.monotone()
    tj, tk, lbj, ubj, lbk, ubk = D.ct[j], D.ct[k], D.lb[j], D.ub[j], D.lb[k], D.ub[k]; one = lambda b: If(b, 1, 0); d_ = lambda x, f, t: If(x == 0, 0, one(f(x, t)))
    sub = lambda q: Subst(A, q, j, k, aij, aik, pp[q], sp[q]); alive = lambda q: Not(has(D.rt[q], RIN)); c.requires(c.forall(sk, ek, lambda t: (lambda q, s: Implies(q != i, And(S0.n_inf_max[q] >= d_(s.old, imax, tj) + d_(s.coef, imax, tk), S0.n_inf_min[q] >= d_(s.old, imin, tj) + d_(s.coef, imin, tk), s.coef != 0)))(T.i[t], sub(T.i[t]))), "the old coefficients are counted")
    for f in (D.pA, D.pT): c.modifies(f, "nnz")
    for f in (A.pi, A.px): c.modifies(f, lo=0, hi=None)
    c.modifies(A.pp, "end", lo=0, hi=None)
    for f in (T.pi, T.px): c.modifies(f, lo=sj, hi=T.start[j + 1])
    for x in (j, k): c.modifies(T.pp, "end", lo=x, hi=x + 1); c.modifies(D.pcs, lo=x, hi=x + 1)
    for p in (D.prs, D.plhs, D.prhs): c.modifies(p, lo=0, hi=None)
    D.modifies_act(); c.modifies(D.pct, lo=k, hi=k + 1); c.modifies(locks, lo=j, hi=j + 1); c.modifies(pn); c.modifies(work, lo=n0, hi=n0 + ek - sk); T0.grows(); [x.grows() for x in Ls.values()]
    w, y = c.any("row", "entry"); c.inst(w, y); sw = sub(w); to = sw.to(y); c.inst(to); cnt = lambda hi: c.count(sk, hi, lambda t: alive(T.i[t])); inr = lambda q, hi: And(sk <= invk[q], invk[q] < hi, T.i[invk[q]] == q); done = lambda q, hi: And(inr(q, hi), alive(q)); c.hint(invk[w])
    def facts(d, t):
        """the state when the entries of the column before place t have been handled"""
        N = Cons(d, cons).mtx(); S1 = d.arr(D.pact); e = N.AT.end[j]; T1 = Tape(d, D.info); n1 = d.get(pn); L1 = {f: x.now(d) for f, x in Ls.items()}; W = d.arr(work); dw = done(w, t); nl = N.rs[w]; rec = T0.n + cnt(invk[w]); b = T1.starts[rec]
        flat = lambda q: And(N.A.end[q] == A.end[q], N.rs[q] == D.rs[q], N.lhs[q] == D.lhs[q], N.rhs[q] == D.rhs[q], *[getattr(S1, f)[q] == getattr(S0, f)[q] for f in ACT[:4]]); entry = lambda u: And(N.A.i[u] == A.i[u], N.A.x[u] == A.x[u]); same = lambda q: c.forall(A.start[q], A.end[q], entry)
        ch = sw.coef / aik * beta; amax, amin = (getattr(S0, f)[w] for f in ("max", "min")); nmax, nmin = S1.n_inf_max[w], S1.n_inf_min[w]
        P = lambda *x: part in x
        touched = lambda f: c.forall(0, D.m, lambda q: Implies(Not(done(q, t)), f(q))); ends = lambda q: And(N.A.end[q] == A.end[q], N.rs[q] == D.rs[q]); sides = lambda q: And(N.lhs[q] == D.lhs[q], N.rhs[q] == D.rhs[q]); av = lambda q: And(*[getattr(S1, f)[q] == getattr(S0, f)[q] for f in ACT[:4]]); flat = lambda q: And(ends(q), sides(q), av(q)) if P("state") else ends(q)
        out = [("rows without the variable, and those to come, keep their length", touched(ends)), ("and their entries", c.forall(0, D.m, lambda q: Implies(Not(done(q, t)), same(q)))), ("the row: untouched before its turn", Implies(And(inr(w, ek), alive(w), Not(dw)), And(flat(w), entry(pp[w]), Implies(And(A.start[w] <= y, y < A.end[w]), entry(y)), Implies(sp[w] < A.end[w], entry(sp[w]))))), ("the substituted column is empty", N.AT.end[k] == sk)]
        if not P("column"): out += [("the entry in turn", Implies(t < ek, And(N.AT.i[t] == T.i[t], 0 <= T.i[t], T.i[t] < D.m)))]
        if P("state"): out += [("and their sides", touched(sides)), ("and their activities", touched(av))]
        if P("column"): out += [
            ("the entry in turn", And(Implies(t < ek, N.AT.i[t] == T.i[t]), Implies(t < ek, fill(c, T, invj, j, k, simp(t + 1)) == fill(c, T, invj, j, k, t) + If(member(T.i, invj, T.i[t], sj, ej), 0, 1)))), ("room for the new entries", And(sj <= e, e <= ej - 1 + fill(c, T, invj, j, k, t))), ("the column that stays is sorted", c.forall(sj, e, lambda u: c.forall(u + 1, e, lambda v: N.AT.i[u] < N.AT.i[v]))), ("its length", N.cs[j] == e - sj),
            ("its rows to come", c.forall(t, ek, lambda u: Implies(And(T.i[u] != i, member(T.i, invj, T.i[u], sj, ej)), c.exists(sj, e, lambda v: N.AT.i[v] == T.i[u])))),
            ]
        out += [("lists well formed", And(T1.wf(), T1.end >= T0.end, T1.n == T0.n + cnt(t), n0 <= n1, n1 <= n0 + t - sk, *[And(x.wf(), x.n >= Ls[f].n) for f, x in L1.items()]))]
        if P("rows", "state", "log"): out += [("the row: length", Implies(dw, And(N.A.end[w] == A.end[w] + sw.d, N.rs[w] == D.rs[w] + sw.d)))]
        if P("rows"): out += [("rows are apart", And(Implies(inr(w, ek), And(0 <= w, w < A.m, A.start[w] <= A.end[w])), Implies(And(inr(w, ek), w != i), And(A.start[w] <= pp[w], pp[w] < A.end[w], A.start[w] <= sp[w], sp[w] <= A.end[w])), Implies(And(t < ek, inr(w, ek), T.i[t] != w), Or(A.end[w] <= A.start[T.i[t]], A.end[T.i[t]] <= A.start[w]))))]
        if P("rows"): out += [("the row: other entries keep value and order", Implies(And(dw, A.start[w] <= y, y < A.end[w], y != sw.p, Not(And(sw.found, y == sw.s))), And(N.A.i[to] == A.i[y], N.A.x[to] == A.x[y]))), ("the row: new coefficient", Implies(And(dw, sw.new != 0), And(N.A.i[sw.ps] == j, N.A.x[sw.ps] == sw.new)))]
        if P("state"): out += [("the row: sides", Implies(dw, And(N.lhs[w] == If(has(D.rt[w], LHSI), D.lhs[w], D.lhs[w] - ch), N.rhs[w] == If(has(D.rt[w], RHSI), D.rhs[w], D.rhs[w] - ch)))),
            ("the row: counts of unbounded contributions", Implies(dw, And(nmax == S0.n_inf_max[w] - d_(sw.old, imax, tj) + d_(sw.new, imax, tj) - d_(sw.coef, imax, tk), nmin == S0.n_inf_min[w] - d_(sw.old, imin, tj) + d_(sw.new, imin, tj) - d_(sw.coef, imin, tk))))]
        if P("log"): out += [("the row: listed by its new length", Implies(dw, And(Implies(nl == 0, c.exists(Ls["empty_rows"].n, L1["empty_rows"].n, lambda u: L1["empty_rows"].a[u] == w)), Implies(And(nl == 1, D.rs[w] != 1), c.exists(Ls["ston_rows"].n, L1["ston_rows"].n, lambda u: L1["ston_rows"].a[u] == w)), Implies(And(nl == 2, D.rs[w] != 2, has(D.rt[w], EQ)), c.exists(n0, n1, lambda u: W[u] == w))))),
            ("the row: recorded", Implies(dw, And(cnt(invk[w]) < cnt(t), isbv(T1.type[rec], AROW), b >= T0.end, b + 2 <= T1.end, T1.indices[b] == i, T1.indices[b + 1] == w, T1.vals[b] == -sw.coef / aik)))]
        if P("column"): out += [("the row: its new coefficient in the column that stays", Implies(dw, If(sw.new != 0, c.exists(sj, e, lambda u: And(N.AT.i[u] == w, N.AT.x[u] == sw.new)), c.forall(sj, e, lambda u: N.AT.i[u] != w))))]
        return out
    c.at_call("remove_coeff", lambda L, a: dict(position=invj[i] - sj)); c.at_call("update_row_A_dton", lambda L, a: dict(position=pp[a[2]], place=sp[a[2]]))
    own = lambda L: And(inr(w, ek), invk[w] == sk + L["jj"], alive(w)); before = lambda L: done(w, simp(sk + L["jj"])); coarse = lambda L: [own(L), before(L)]; fine = lambda L: [And(own(L), sw.found, sw.gone), And(own(L), sw.found, Not(sw.gone)), And(own(L), Not(sw.found), sw.come), And(own(L), Not(sw.found), Not(sw.come)), before(L)]
    c.loop(0, lambda L: [("entry range", And(0 <= L["jj"], L["jj"] <= L["len"], L["len"] == ek - sk))] + facts(c.at(L), simp(sk + L["jj"])), split_of={n: (fine if n in FINE else coarse) for n, _ in facts(c, sk) if n.startswith("the row: ") and "before" not in n}, known=() if part == "rows" else ("rows without the variable, and those to come, keep their length", "and their entries", "the row: length", "lists well formed"))
    yield
    N = Cons(c, cons).mtx(); T1 = Tape(c, D.info)
    for n, f in facts(c, ek):
        if n not in ("lists well formed",): c.ensures(n, f)
    c.ensures("the column is gone", And(eqt(N.ct[k], z3.BitVecVal(CIN, 8)), N.cs[k] == -1, N.AT.end[k] == sk)); c.ensures("two records more", T1.n == T0.n + cnt(ek) + 2)
for part_ in PARTS: subst_part(part_)
# ------------------------------------------------------------------ the loop over all two-variable equations
def bump(c, n, w=True): c.gset("#" + n, c.gget("#" + n) + If(w, 1, 0))
def its_entries(c2, D, i, stay, aij, aik):
    """the two entries of row i: the one of the variable that stays and the other one; returns (condition, the other variable)"""
    N = Cons(c2, D.cons).mtx(); s = D.A.start[i]; k0, k1, v0, v1 = N.A.i[s], N.A.i[s + 1], N.A.x[s], N.A.x[s + 1]; return N, If(stay == k0, k1, k0), Or(And(stay == k0, aij == v0, aik == v1), And(stay == k1, aij == v1, aik == v0))
@contract(FILE, "find_substitution", [], key="find_substitution/effect", assumed="find_substitution chooses one of the two variables of the row or rejects it, as its own contract states (proved; its preconditions at this call are the data structure invariants)")
def _(c):
    row, tags, pj, pk, paik, paij, A, sizes, lim, work, pn = c.args; M = Mtx(c, A); r = RowV(c, row); T = c.arr(tags); n0 = c.get(pn); moves(c, M); [c.modifies(p) for p in (pj, pk, paik, paij, pn)]; c.modifies(work, lo=n0, hi=n0 + 1)
    yield
    j, k, aij, aik = c.get(pj), c.get(pk), c.get(paij), c.get(paik); ok = j != -1; go = And(r.n >= 2, Not(has(T[r.k[0]], CIN)), Not(has(T[r.k[1]], CIN))); c.ensures("chosen", Implies(ok, And(go, 0 <= j, 0 <= k, j != k, Or(And(j == r.k[0], k == r.k[1], aij == r.v[0], aik == r.v[1]), And(j == r.k[1], k == r.k[0], aij == r.v[1], aik == r.v[0])), aij != 0, aik != 0)))
    c.ensures("rejected rows are kept", And(c.get(pn) == n0 + If(And(go, Not(ok)), 1, 0), Implies(And(go, Not(ok)), c.arr(work)[n0] == r.i))); c.gset("changed", Or(c.gget("changed"), ok))
@contract(FILE, "modify_bounds", [], key="modify_bounds/effect", assumed="modify_bounds changes only the bounds and tag of the variable that stays, activities and lists, and answers infeasible or unchanged (its own contract is proved; its preconditions at this call are the data structure invariants)")
def _(c):
    cons, i, aij, aik, rhs, lbs, ubs, stay, t = c.args; D = Cons(c, cons).mtx(); T0, U0, F0 = Tape(c, D.info), D.lst("updated_activities"), D.lst("fixed_cols_to_delete"); c.requires(And(T0.wf(), U0.wf(), F0.wf()), "lists well formed"); c.modifies(D.pb, lo=stay, hi=stay + 1); c.modifies(D.pct, lo=stay, hi=stay + 1); U0.grows(); F0.grows(); D.modifies_act(); T0.grows()
    yield
    N = Cons(c, cons); T1 = Tape(c, D.info); c.ensures("verdict", Or(rc(c) == INFEAS, rc(c) == UNCH)); c.ensures("lists well formed", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, *[And(x.now().wf(), x.now().n >= x.n) for x in (U0, F0)])); c.gset("infeasible", Or(c.gget("infeasible"), rc(c) == INFEAS)); bump(c, "due", And(rc(c) != INFEAS, Not(has(N.ct[stay], CIN))))
@contract(FILE, "subst_col_in_obj_dton", [], key="subst_col_in_obj_dton/counted", assumed="")
def _(c):
    obj, stay, subst, aik, aij, rhs = c.args; p = c.get(obj, "c"); C = c.arr(p); c.requires(stay != subst); c.modifies(p, lo=stay, hi=stay + 1); c.modifies(obj, "offset")
    yield
    bump(c, "cost")
@contract(FILE, "execute_substitution", [], key="execute_substitution/effect", assumed="execute_substitution changes only the matrices, sides, sizes, counts, activities and lists, and the tag of the substituted variable (its own contracts are proved; their preconditions at this call are the data structure invariants)")
def _(c):
    cons, row, j, k, aij, aik, pn, ck = c.args; D = Cons(c, cons).mtx(); A, T = D.A, D.AT; T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ("empty_rows", "ston_rows", "empty_cols", "ston_cols", "updated_activities")}; locks = c.get(D.st, "col_locks"); n0 = c.get(pn); work = c.get(c.get(D.st, "work"), "iwork_n_rows"); W0 = c.arr(work)
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    for M in (A, T):
        c.modifies(M.A, "nnz"); c.modifies(M.pp, "end", lo=0, hi=None)
        for f in (M.pi, M.px): c.modifies(f, lo=0, hi=None)
    for p in (D.prs, D.plhs, D.prhs, D.pcs): c.modifies(p, lo=0, hi=None)
    D.modifies_act(); c.modifies(D.pct, lo=k, hi=k + 1); c.modifies(locks, lo=j, hi=j + 1); c.modifies(pn); c.modifies(work, lo=n0, hi=None); T0.grows(); [x.grows() for x in Ls.values()]
    yield
    T1 = Tape(c, D.info); c.ensures("lists well formed", And(T1.wf(), T1.n >= T0.n, T1.end >= T0.end, c.get(pn) >= n0, *[And(x.now().wf(), x.now().n >= x.n) for x in Ls.values()])); bump(c, "done"); c.gset("#entries", c.gget("#entries") + c.get(D.pA, "nnz") - A.nnz)
EFF = {n: n + "/effect" for n in ("find_substitution", "modify_bounds", "execute_substitution")}
@contract(FILE, "remove_dton_eq_rows__", ["C15", "C05", "C01", "C20"], opaque=dict(EFF, subst_col_in_obj_dton="subst_col_in_obj_dton/counted"), bmc=(1, 2))
def _(c):
    prob, lim = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); D.cons = cons; obj = c.get(prob, "obj"); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}; S0 = Ls["dton_rows"]; work = c.get(c.get(D.st, "work"), "iwork_n_rows"); nz0 = D.A.nnz
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    c.requires(And(S0.n < 2**31, Not(c.gget("changed")), Not(c.gget("infeasible")), *[c.gget("#" + g) == 0 for g in ("due", "cost", "done", "entries")])); c.requires(D.A.layout(), "rows do not overlap")
    inner_frame(c, D); T0.grows(); D.modifies_act(); c.modifies(obj, "offset"); c.modifies(c.get(obj, "c"), lo=0, hi=None); c.modifies(c.get(D.pT, "p"), "start", lo=0, hi=None); c.modifies(work, lo=0, hi=None); Ls["updated_activities"].grows(); Ls["fixed_cols_to_delete"].grows(); c.modifies(S0.d, lo=0, hi=None); c.modifies(S0.v, "len")
    for p in (D.plhs, D.prhs, D.prt, D.pct, D.pb): c.modifies(p, lo=0, hi=None)
    at = lambda p, base, o: And(p.one()[1] is base.one()[1], p.one()[2] == o) if p.one()[1] is base.one()[1] else z3.BoolVal(False)
    def view(c2, row, i):
        N = Cons(c2, cons).mtx(); g = lambda f: c2.get(row, f); return And(g("i") == i, at(g("len"), D.prs, i), at(g("lhs"), D.plhs, i), at(g("rhs"), D.prhs, i), at(g("tag"), D.prt, i), at(g("range"), c.get(D.pA, "p"), i), at(g("vals"), c.get(D.pA, "x"), N.A.start[i]), at(g("cols"), c.get(D.pA, "i"), N.A.start[i]))
    def found(c2, a): row, tags, _, _, _, _, A, sizes, li, wk, pn = a; return [("the listed row is tried", view(c2, row, S0.a[local(c2, "ii")])), ("with the column copy, sizes and limit", And(at(tags, D.pct, 0), at(sizes, D.pcs, 0), at(wk, work, 0), li == lim, z3.BoolVal(A.one()[1] is D.pT.one()[1])))]
    def bounds(c2, a): cn, i, aij, aik, rhs, lbs, ubs, stay, t = a; N, k, ok = its_entries(c2, D, i, stay, aij, aik); return [("bounds move along the row that is tried", And(ok, i == S0.a[local(c2, "ii")], rhs == N.rhs[i])), ("the bounds of the variable that goes", And(lbs == N.lb[k], ubs == N.ub[k], eqt(t, N.ct[k])))]
    def cost(c2, a): ob, stay, k, aik, aij, rhs = a; i = S0.a[local(c2, "ii")]; N, k_, ok = its_entries(c2, D, i, stay, aij, aik); return [("cost moves along the row that is tried", And(ok, k == k_, rhs == N.rhs[i]))]
    def execd(c2, a): cn, row, stay, k, aij, aik, pn, ck = a; i = S0.a[local(c2, "ii")]; N, k_, ok = its_entries(c2, D, i, stay, aij, aik); return [("the row that is tried is substituted", And(ok, k == k_, view(c2, row, i))), ("the row is gone before", And(N.rs[i] == -1, N.A.end[i] == N.A.start[i], has(N.rt[i], RIN))), ("cost of the variable that goes", ck == c2.arr(c2.get(obj, "c"))[k]), ("the variable that stays is not fixed", Not(has(N.ct[stay], CIN)))]
    for n, h in (("find_substitution", found), ("modify_bounds", bounds), ("subst_col_in_obj_dton", cost), ("execute_substitution", execd)): c.before(n, h)
    wfs = lambda d: And(Tape(d, D.info).wf(), Tape(d, D.info).n >= T0.n, Tape(d, D.info).end >= T0.end, *[And(x.now(d).wf(), x.now(d).n >= x.n) for f, x in Ls.items() if f not in ("dton_rows",)])
    c.loop(0, lambda L: (lambda d: [("lists well formed", And(wfs(d), L["n_new_dton_rows"] >= 0)), ("range", L["ii"] >= 0), ("cost and rows move together, once for each row that goes", And(d.gget("#cost") == d.gget("#due"), d.gget("#done") == d.gget("#due"))), ("number of entries", d.get(D.pA, "nnz") == nz0 + d.gget("#entries") - 2 * d.gget("#due")), ("no verdict so far", Not(d.gget("infeasible"))), ("changed so far", And(Or(L["status"] == UNCH, L["status"] == RED), (L["status"] == RED) == d.gget("changed")))])(c.at(L)))
    yield
    N = Cons(c, cons).mtx(); c.ensures("infeasible exactly when a moved bound crosses", (rc(c) == INFEAS) == c.gget("infeasible")); c.ensures("changed exactly when a row was used", Implies(rc(c) != INFEAS, And(Or(rc(c) == RED, rc(c) == UNCH), (rc(c) == RED) == c.gget("changed")))); c.ensures("both copies count the same entries", N.A.nnz == N.AT.nnz)
    c.ensures("cost and rows move together, once for each row that goes", Implies(rc(c) != INFEAS, And(c.gget("#cost") == c.gget("#due"), c.gget("#done") == c.gget("#due"), N.A.nnz == nz0 + c.gget("#entries") - 2 * c.gget("#due")))); S1 = S0.now(); W = c.arr(work); c.ensures("the rows still to be tried are listed", Implies(rc(c) != INFEAS, c.forall(0, S1.n, lambda t: S1.a[t] == W[t]))); c.ensures("lists well formed", And(Tape(c, D.info).wf(), *[x.now().wf() for x in Ls.values()]))
@contract(FILE, "remove_dton_eq_rows__", [], key="remove_dton_eq_rows__/any", assumed="")
def _(c):
    c.wild(c.args[0])
    yield
    s = rc(c); c.ensures("status", Or(s == UNCH, s == RED, s == INFEAS)); c.gset("last", s == INFEAS)
def deletion_any(file, name, first):
    @contract(file, name, [], key=name + "/any", assumed="")
    def _(c):
        c.wild(c.args[0])
        yield
        if first: c.gset("adjusted", z3.BoolVal(True))
deletion_any("SimpleReductions.c", "delete_fixed_cols_from_problem", True); deletion_any("Constraints.c", "delete_inactive_cols_from_A_and_AT", False)
DEL_ANY = {n: n + "/any" for n in ("delete_fixed_cols_from_problem", "delete_inactive_cols_from_A_and_AT")}
@contract(FILE, "remove_dton_eq_rows", ["C15", "C05", "C12"], opaque=dict(DEL_ANY, remove_dton_eq_rows__="remove_dton_eq_rows__/any"))
def _(c):
    c.wild(c.args[0]); c.loop(0, lambda L: [("no verdict yet", Not(c.at(L).gget("last")))]); lim = c.args[1]; c.before("remove_dton_eq_rows__", lambda c2, a: [("the limit on new entries is handed on", a[1] == lim)])
    c.requires(And(Not(c.gget("last")), Not(c.gget("adjusted")))); c.before("delete_inactive_cols_from_A_and_AT", lambda c2, a: [("sides and objective are adjusted before the columns go", c2.gget("adjusted"))])
    yield
    c.ensures("unchanged or infeasible", Or(rc(c) == UNCH, rc(c) == INFEAS)); c.ensures("the verdict of the last pass is returned", (rc(c) == INFEAS) == c.gget("last"))
