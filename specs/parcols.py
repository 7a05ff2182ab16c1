"""Parallel columns (C19): what happens to one pair of columns, when a column is merged or fixed, when the pair shows unboundedness."""
from spec import *
import z3
from core import *
from postsolve import size, PCOL
from simple import DEL, inner_frame, ALL8
@contract("Activity.c", "recompute_n_infs", ["C19"], key="recompute_n_infs/frame")
def _(c):
    act = c.args[0]; c.modifies(act, "n_inf_max"); c.modifies(act, "n_inf_min"); c.loop(0, lambda L: [])
    yield
    if c.mode == "call": c.gset("recounted", Or(c.gget("recounted"), act.one()[2] == ROW))
ROW = z3.Int("row of interest")
def rec_is(c, T1, r, e, ty, ii, vv):
    """record r of the tape starts at e and is (ty, ii, vv)"""
    out = [And(isbv(T1.type[r], ty), T1.starts[r] == e, T1.starts[r + 1] == e + size(ii))]
    for a, items in ((T1.indices, ii), (T1.vals, vv)):
        p = e
        for x in items:
            if isinstance(x, tuple): out.append(c.forall(p, p + x[1], lambda q, x=x, p=p, a=a: a[q] == x[0][simp(q - p)])); p = simp(p + x[1])
            else:
                if x is not None: out.append(a[p] == x)
                p = simp(p + 1)
    return And(out)
def pair(N, c, x, st, j, k):
    """the rule for columns j (stays) and k (goes): ratio, merge?, and when not merged which bound of which column is taken"""
    a, b = x[st[j]], x[st[k]]; ratio = b / a; cj, ck = c[j], c[k]; mg = absr(ck * a - cj * b) <= TOL; t = lambda k, m: has(N.ct[k], m)
    gt, pos = ck > ratio * cj, ratio > 0
    kl = And(gt, If(pos, t(j, UBI), t(j, LBI))); ku = And(Not(gt), If(pos, t(j, LBI), t(j, UBI)))
    jl = And(Not(kl), Not(ku), Or(And(gt, Not(pos), t(k, LBI)), And(Not(gt), pos, t(k, UBI)))); ju = And(Not(kl), Not(ku), Or(And(gt, pos, t(k, LBI)), And(Not(gt), Not(pos), t(k, UBI))))
    return ratio, pos, mg, *[simp(And(Not(mg), z)) for z in (kl, ku, jl, ju)]
@contract("Parallel_cols.c", "process_single_bin", ["C19", "C06", "C03", "C04"], key="process_single_bin/cols", callable=False, opaque={"fix_col": "fix_col", "recompute_n_infs": "recompute_n_infs/frame"}, bmc=(2,))
def _(c):
    prob, bin_, nb = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); b = c.arr(bin_); cost = c.arr(c.get(c.get(prob, "obj"), "c")); T0 = Tape(c, D.info); F, S, U = (D.lst(f) for f in ("fixed_cols_to_delete", "sub_cols_to_delete", "updated_activities"))
    for x in (T0, F, S, U): c.requires(x.wf(), "lists well formed")
    c.requires(nb > 1, "at least two columns"); c.requires(c.forall(0, nb, lambda t: And(D.AT.start[b[t]] < D.AT.end[b[t]], D.AT.x[D.AT.start[b[t]]] != 0)), "nonempty columns")
    d1, d2 = c.ghost("first"), c.ghost("second"); inv = c.ghost("inverse", IA); c.requires(c.every(b, 0, nb, lambda t, v: inv[v] == t), "columns listed once"); q = c.ghost("column"); row = c.ghost("entry")
    for f in (F, S, U): f.grows()
    T0.grows(); D.modifies_act(); c.modifies(D.pb, lo=0, hi=None); c.modifies(D.pct, lo=0, hi=None)
    x, st, en, rows = D.AT.x, D.AT.start, D.AT.end, D.AT.i
    wfs = lambda c2: [("lists well formed", And(Tape(c2, D.info).wf(), Tape(c2, D.info).n >= T0.n, Tape(c2, D.info).end >= T0.end, *[And(z.now(c2).wf(), z.now(c2).n >= z.n) for z in (F, S, U)]))]
    def each(L0, L1, how):
        c0, c1 = c.at(L0), c.at(L1); N0, N1 = Cons(c0, cons), Cons(c1, cons); j, k = b[L0["ii"]], b[L0["jj"]]; live = Not(has(N0.ct[k], CIN)); ratio, pos, mg, kl, ku, jl, ju = pair(N0, cost, x, st, j, k)
        Ta, Tb = Tape(c0, D.info), Tape(c1, D.info); Fa, Fb, Sa, Sb = F.now(c0), F.now(c1), S.now(c0), S.now(c1)
        none = Or(And(kl, has(N0.ct[k], LBI)), And(ku, has(N0.ct[k], UBI)), And(jl, has(N0.ct[j], LBI)), And(ju, has(N0.ct[j], UBI)))
        if how == "return": return [("unbounded or infeasible only when the cost pushes both columns to infinity", And(live, none, to_int(L1.value) == UNB))]
        out = [("the pair is not unbounded", Implies(live, Not(none)))]
        # merged
        m = And(live, mg); ml, mu = Or(has(N0.ct[j], LBI), has(N0.ct[k], If(pos, z3.BitVecVal(LBI, 8), z3.BitVecVal(UBI, 8)))) if False else Or(has(N0.ct[j], LBI), If(pos, has(N0.ct[k], LBI), has(N0.ct[k], UBI))), Or(has(N0.ct[j], UBI), If(pos, has(N0.ct[k], UBI), has(N0.ct[k], LBI)))
        fx = Or(kl, ku, jl, ju); who, val = If(Or(kl, ku), k, j), If(kl, N0.lb[k], If(ku, N0.ub[k], If(jl, N0.lb[j], N0.ub[j])))
        bad = Or(And(Not(has(N0.ct[who], UBI)), val >= N0.ub[who] + TOL), And(Not(has(N0.ct[who], LBI)), val <= N0.lb[who] - TOL)); fd = And(live, fx, Not(bad))
        out += [("the merged column can take exactly the combined values, the other columns keep their bounds", And(N1.lb[q] == If(And(m, q == j), If(ml, -INF, N0.lb[j] + If(pos, N0.lb[k], N0.ub[k]) * ratio), If(And(fd, q == who), val, N0.lb[q])), N1.ub[q] == If(And(m, q == j), If(mu, INF, N0.ub[j] + If(pos, N0.ub[k], N0.lb[k]) * ratio), If(And(fd, q == who), val, N0.ub[q])))),
                ("tags say which bounds are infinite, which column is merged away and which is fixed", eqt(N1.ct[q], If(And(m, q == k), bor(N0.ct[k], SUBST), If(And(m, q == j), to_bv(N0.ct[j], 8) | If(ml, z3.BitVecVal(LBI, 8), z3.BitVecVal(0, 8)) | If(mu, z3.BitVecVal(UBI, 8), z3.BitVecVal(0, 8)), If(And(fd, q == who), bor(N0.ct[q], FIXED), to_bv(N0.ct[q], 8)))))),
                ("the column merged away is listed", And(Sb.n == Sa.n + If(m, 1, 0), Implies(m, Sb.a[Sa.n] == k))), ("the fixed column is listed", And(Fb.n == Fa.n + If(fd, 1, 0), Implies(fd, Fb.a[Fa.n] == who))), ("one record for a merged or fixed column", Tb.n == Ta.n + If(Or(m, fd), 1, 0)),
                ("the merge is recorded with the bounds before it", Implies(m, rec_is(c1, Tb, Ta.n, Ta.end, PCOL, [j, k, to_int(to_bv(N0.ct[j], 8)), None, None], [N0.lb[j], N0.ub[j], N0.lb[k], N0.ub[k], ratio]))), ("the infinite sides of the column merged away are recorded", Implies(m, to_bv(Tb.indices[Ta.end + 3], 8) & z3.BitVecVal(15, 8) == to_bv(N0.ct[k], 8) & z3.BitVecVal(15, 8))),
                ("the fixing is recorded", Implies(fd, And(isbv(Tb.type[Ta.n], FC), Tb.indices[Ta.end] == who, Tb.vals[Ta.end] == val, Tb.vals[Ta.end + 1] == cost[who])))]
        out.append(("the need to recount is remembered", Implies(tobool(L0["recount_ninfs"]), tobool(L1["recount_ninfs"]))))
        if how == "next": out.append(("counts of unbounded contributions are renewed after a merge", Implies(m, tobool(L1["recount_ninfs"])))); out.append(("the remaining column is not fixed", Not(And(live, Or(jl, ju)))))
        else: out.append(("the search ends early only when the first column is fixed", And(live, Or(jl, ju))))
        return out
    def args_ok(c2, a): i = a[0].one()[2]; return [("the recount looks at the row it is for", And(a[1].one()[1] is D.A.x.ptr.one()[1], a[2].one()[1] is D.A.i.ptr.one()[1], a[4].one()[1] is D.pct.one()[1], a[1].one()[2] == D.A.start[i], a[2].one()[2] == D.A.start[i], a[3] == D.A.end[i] - D.A.start[i], a[4].one()[2] == D.pct.one()[2]))]
    c.before("recompute_n_infs", args_ok)
    c.loop(0, lambda L: wfs(c.at(L)), each=lambda L0, L1, how: [("the rows of a column with merged bounds are recounted", Implies(And(tobool(L1["recount_ninfs"]), st[L1["j"]] <= row, row < en[L1["j"]], rows[row] == ROW, Not(has(Cons(c.at(L0), cons).ct[b[L0["ii"]]], CIN))), c.at(L1).gget("recounted")))] if how == "next" else [])
    c.loop(1, lambda L: wfs(c.at(L)) + [("first column", And(L["j"] == b[L["ii"]], L["cj"] == cost[L["j"]], Not(has(Cons(c.at(L), cons).ct[L["j"]], CIN)), L["len_j"] == en[L["j"]] - st[L["j"]])), ("pairs in order", L["jj"] > L["ii"])], each=each)
    c.loop(2, lambda L: [("rows so far are recounted", Implies(And(st[b[L["ii"]]] <= row, row < st[b[L["ii"]]] + L["jj"], rows[row] == ROW), c.at(L).gget("recounted"))), ("range", L["jj"] >= 0)])
    yield
    if c.mode == "call": c.gset("conflict", Or(c.gget("conflict"), rc(c) == UNB))
    c.ensures("unchanged or unbounded", Or(rc(c) == UNCH, rc(c) == UNB)); c.ensures("lists well formed", wfs(c)[0][1])
def tobool(x): return x if z3.is_bool(x) else x != 0
# ------------------------------------------------------------------ all groups (imports from the rows: the same search is used on the transpose)
import parrows
from parrows import groups, Shift, Rng, left_inverse, work, IA
from control import local
def col_ok(D, v): return And(v >= 0, D.AT.start[v] < D.AT.end[v], D.AT.x[D.AT.start[v]] != 0)
def col_mods(c, D):
    L = {f: D.lst(f) for f in ("fixed_cols_to_delete", "sub_cols_to_delete", "updated_activities")}; T0 = Tape(c, D.info); [x.grows() for x in L.values()]; T0.grows(); D.modifies_act(); c.modifies(D.pb, lo=0, hi=None); c.modifies(D.pct, lo=0, hi=None)
    return L, T0, lambda c2: And(Tape(c2, D.info).wf(), Tape(c2, D.info).n >= T0.n, Tape(c2, D.info).end >= T0.end, *[And(z.now(c2).wf(), z.now(c2).n >= z.n) for z in L.values()])
@contract("Parallel_cols.c", "process_all_bins", ["C19", "C06"], key="process_all_bins/cols", callable=False, opaque={"process_single_bin": "process_single_bin/cols"}, bmc=(2,))
def _(c):
    prob, cols, gs = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); G = Lst(c, gs); R_ = c.arr(cols); ro = cols.one()[2]; M = Rng(c, D.pT); inv = c.ghost("inverse", IA); c.requires(groups(c, G, cols, inv), "groups of columns"); tot = G.a[G.n - 1]
    L, T0, wfs = col_mods(c, D)
    for x in (T0, *L.values()): c.requires(x.wf(), "lists well formed")
    c.requires(c.every(R_, 0, tot, lambda p, v: col_ok(D, v)), "columns are not empty"); par = lambda g, q: Implies(And(0 <= g, g < G.n - 1, G.a[g] <= q, q < G.a[g + 1]), M.parallel(c, R_[G.a[g + 1] - 1], R_[q]))
    if c.bmc: c.requires(c.forall(0, G.n - 1, lambda g: c.forall(G.a[g], G.a[g + 1], lambda q: par(g, q))), "the columns of a group are parallel")
    else: g_, q_ = z3.Ints("g?par q?par"); c.requires(z3.ForAll([g_, q_], par(g_, q_)), "the columns of a group are parallel")
    if c.mode == "verify": c.requires(Not(c.gget("conflict")))
    z = z3.IntVal(0); c.at_call("process_single_bin/cols", lambda L, a: dict(first=z, second=z, column=z, entry=z, inverse=Shift(inv, simp(ro - a[1].one()[2]))))
    c.before("process_single_bin", lambda c2, a: [("the next group, all of it", And(a[1].one()[1] is cols.one()[1], a[1].one()[2] == ro + G.a[local(c2, "i")], a[2] == G.a[local(c2, "i") + 1] - G.a[local(c2, "i")])), ("its columns are parallel", c.forall(0, a[2], lambda t: M.parallel(c, c2.arr(a[1])[a[2] - 1], c2.arr(a[1])[t])))])
    c.loop(0, lambda L: [("range", And(0 <= L["i"], L["i"] <= G.n - 1)), ("verdict so far", to_int(L["status"]) == If(c.at(L).gget("conflict"), UNB, UNCH)), ("lists well formed", wfs(c.at(L)))])
    yield
    if c.mode == "call": c.gset("processed", TRUE); c.gset("conflict", rc(c) == UNB)
    c.ensures("unchanged or unbounded", Or(rc(c) == UNCH, rc(c) == UNB)); c.ensures("the verdict of a group is returned", (rc(c) == UNB) == c.gget("conflict") if c.mode == "verify" else TRUE); c.ensures("lists well formed", wfs(c))
@contract("Parallel_cols.c", "remove_parallel_cols", ["C19", "C06", "C20", "C13"], opaque=dict(DEL, find_parallel_rows="find_parallel_rows", process_all_bins="process_all_bins/cols"), bmc=(2,))
def _(c):
    prob, = c.args; cons = c.get(prob, "constraints"); D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    cols, pv = work(c, D, "iwork_n_cols"); c.requires(And(0 <= D.AT.m, D.AT.m < 2**31 - 1)); c.requires(c.forall(0, D.AT.m, lambda i: If(has(D.ct[i], CIN), D.AT.start[i] == D.AT.end[i], And(i >= 0, D.AT.start[i] < D.AT.end[i], D.AT.x[D.AT.start[i]] != 0))), "inactive columns are empty, the others are not")
    inner_frame(c, D); col_mods(c, D); c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); c.modifies(c.get(prob, "obj"), "offset")
    c.before("find_parallel_rows", lambda c2, a: [("columns are compared", And(a[0].one()[1] is D.pT.one()[1], a[1].one()[1] is D.pct.one()[1], a[1].one()[2] == D.pct.one()[2], to_int(a[6]) == CIN))]); c.at_call("find_parallel_rows", lambda L, a: {})
    c.before("process_all_bins", lambda c2, a: [("the groups found are processed", And(a[1].one()[1] is cols.one()[1], a[1].one()[2] == cols.one()[2], a[2].one()[1] is pv.one()[1]))])
    c.at_call("process_all_bins/cols", lambda L, a: (lambda c2: dict(inverse=left_inverse(c2, c2.arr(cols), Lst(c2, pv).a[Lst(c2, pv).n - 1], "no column is in two groups")))(c.at(L)))
    c.before("delete_fixed_cols_from_problem", lambda c2, a: [("columns are removed after the last group", c2.gget("processed"))]); c.before("delete_inactive_cols_from_A_and_AT", lambda c2, a: [("columns are removed after the last group, sides and objective adjusted", And(c2.gget("processed"), c2.gget("adjusted")))])
    c.requires(Not(c.gget("processed"))); c.requires(Not(c.gget("adjusted")))
    yield
    c.ensures("unchanged or unbounded", Or(rc(c) == UNCH, rc(c) == UNB)); c.ensures("the verdict of the groups is returned", (rc(c) == UNB) == c.gget("conflict")); c.ensures("lists well formed", And(Tape(c, D.info).wf(), *[x.now().wf() for x in Ls.values()]))
