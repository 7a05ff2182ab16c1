"""The postsolve tape (C02, C03, C04, C09, C23, C24): what each reduction records, what undoing it restores, and that the tape is undone record by record, last first."""
from spec import *
import z3
FC, FINF, SUBC, PCOL, DROW, AROW, AROWS, LHSC, RHSC, EQI, BNO, BTHE = 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024
TOL = z3.RealVal("1/1000000")
ALLP = ["C02", "C03", "C04", "C23", "C26"]
IAS = z3.ArraySort(I, I)
class Tape:
    """the four growable lists of a PostsolveInfo"""
    def __init__(s, c, info, st=None):
        s.c = c; s.info = info
        for f in ("type", "starts", "indices", "vals"):
            v = c.get(info, f, st=st); setattr(s, f + "_v", v); setattr(s, f + "_n", c.get(v, "len", st=st)); setattr(s, f + "_cap", c.get(v, "capacity", st=st)); d = c.get(v, "data", st=st); setattr(s, f + "_d", d); setattr(s, f, c.arr(d, st=st))
        s.n = s.type_n; s.end = s.indices_n
    def wf(s):
        """lists well formed and in step with each other"""
        return And(*[And(0 <= getattr(s, f + "_n"), getattr(s, f + "_n") <= getattr(s, f + "_cap"), getattr(s, f + "_cap") >= 1) for f in ("type", "starts", "indices", "vals")], s.starts_n == s.n + 1, s.starts[s.n] == s.end, s.vals_n == s.end)
    def room(s):
        for f in ("type", "starts", "indices", "vals"): s.c.valid(getattr(s, f + "_v"), 1); s.c.valid(getattr(s, f + "_d"), getattr(s, f + "_cap"))
    def grows(s, k=None, i=None, when=None):
        """frame: k records with i entries in all are added (any number when not given), earlier ones stay"""
        c = s.c
        for f in ("type", "starts", "indices", "vals"):
            c.modifies(getattr(s, f + "_v"), "len", when=when); c.modifies(getattr(s, f + "_v"), "capacity", when=when)
            if c.bmc: c.modifies_ptr(getattr(s, f + "_v"), "data")
        e = UP if i is None else s.end + i
        c.modifies(s.type_d, lo=s.n, hi=UP if k is None else s.n + k, when=when); c.modifies(s.starts_d, lo=s.n + 1, hi=UP if k is None else s.n + k + 1, when=when); c.modifies(s.indices_d, lo=s.end, hi=e, when=when); c.modifies(s.vals_d, lo=s.end, hi=e, when=when)
def isbv(t, v): return to_bv(t, 16) == z3.BitVecVal(v, 16)
def size(items): 
    n = z3.IntVal(0)
    for x in items: n = n + (x[1] if isinstance(x, tuple) else 1)
    return simp(n)
def record(c, T0, info, ty, ii, vv, k=0, base=None, when=None):
    """postcondition: record number T0.n + k is (ty, ii, vv); items are values or (array, length)"""
    ens = lambda n, f: c.ensures(n, f if when is None else Implies(when, f))
    T1 = Tape(c, info); e = T0.end if base is None else base; r = T0.n + k
    ens("type of the record", (to_bv(T1.type[r], 16) == ty) if z3.is_expr(ty) else isbv(T1.type[r], ty)); ens("record ends after its entries", T1.starts[r + 1] == e + size(ii)); ens("record starts where the previous ends", T1.starts[r] == e)
    for name, a, items in (("index", T1.indices, ii), ("value", T1.vals, vv)):
        p = e
        for j, x in enumerate(items):
            if isinstance(x, tuple) and z3.is_int_value(simp(x[1])) and simp(x[1]).as_long() == 0: continue
            if isinstance(x, tuple): ens(f"{name}s {j} on in order", c.forall(p, p + x[1], lambda q, x=x, p=p, a=a: a[q] == x[0][simp(q - p)])); p = simp(p + x[1])
            elif x is not None: ens(f"{name} {j}", a[p] == x); p = simp(p + 1)
            else: p = simp(p + 1)
    return T1, simp(e + size(ii))
def saves(name, props, mk, lens=None):
    """save_retrieval_<name> appends one record"""
    @contract("Postsolver.c", "save_retrieval_" + name, props, safe=True)
    def _(c):
        info = c.args[0]
        if c.mode == "verify" or c.eng.safe: c.valid(info, 1)
        T0 = Tape(c, info); c.requires(T0.wf(), "tape well formed"); T0.room()
        ty, ii, vv = mk(c, *c.args[1:])
        for p, n in (lens(c, *c.args[1:]) if lens else []): c.requires(n >= 0); c.valid(p, n)
        T0.grows(1, size(ii))
        if c.mode == "verify":
            for f in ("type", "starts", "indices", "vals"): c.modifies_ptr(getattr(T0, f + "_v"), "data")
        yield
        T1, e = record(c, T0, info, ty, ii, vv)
        if c.mode == "verify":          # the old records survive (callers have it from the frame)
            c.ensures("earlier records kept", And(c.forall(0, T0.n, lambda r: And(to_bv(T1.type[r], 16) == to_bv(T0.type[r], 16))), c.forall(0, T0.n + 1, lambda r: T1.starts[r] == T0.starts[r]), c.forall(0, T0.end, lambda r: And(T1.indices[r] == T0.indices[r], T1.vals[r] == T0.vals[r]))))
        else:
            for f in ("type", "starts", "indices", "vals"): c.grow(getattr(T1, f + "_d"), getattr(T1, f + "_cap"))
        c.ensures("one record more", T1.n == T0.n + 1); c.ensures("tape well formed", T1.wf())
A_ = lambda c, p: c.arr(p)
saves("fixed_col", ALLP, lambda c, col, val, ck, vals, rows, n: (FC, [col, None, (A_(c, rows), n)], [val, ck, (A_(c, vals), n)]), lambda c, col, val, ck, vals, rows, n: [(vals, n), (rows, n)])
saves("sub_col", ALLP, lambda c, col, cols, co, n, rhs, i, ck: (SUBC, [col, (A_(c, cols), n), i], [rhs, (A_(c, co), n), ck]), lambda c, col, cols, co, n, rhs, i, ck: [(cols, n), (co, n)])
saves("parallel_col", ALLP + ["C19"], lambda c, ubj, lbj, lbk, ubk, ratio, j, k, tj, tk: (PCOL, [j, k, sym.to_int(tj), sym.to_int(tk), None], [lbj, ubj, lbk, ubk, ratio]))
saves("deleted_row", ALLP, lambda c, row, val: (DROW, [row], [val]))
saves("added_row", ALLP + ["C15"], lambda c, i, j, ratio: (AROW, [i, j], [ratio, None]))
saves("added_rows", ALLP, lambda c, i, rows, vals, n, aik: (AROWS, [i, (A_(c, rows), n)], [aik, (A_(c, vals), n)]), lambda c, i, rows, vals, n, aik: [(rows, n), (vals, n)])
saves("bound_change_no_row", ALLP + ["C14"], lambda c, j, imp, oth, low: (BNO, [j, low], [imp, oth]))
saves("bound_change_the_row", ALLP + ["C14"], lambda c, i, cols, vals, n, k: (BTHE, [i, (A_(c, cols), n)], [sym.to_real(k), (A_(c, vals), n)]), lambda c, i, cols, vals, n, k: [(cols, n), (vals, n)])
saves("rhs_or_lhs_change", ALLP + ["C18"], lambda c, i, vals, cols, n, side, j, ratio, lhs: (If(lhs, z3.BitVecVal(LHSC, 16), z3.BitVecVal(RHSC, 16)), [i, j, (A_(c, cols), n)], [side, ratio, (A_(c, vals), n)]), lambda c, i, vals, cols, n, side, j, ratio, lhs: [(cols, n), (vals, n)])
saves("eq_to_ineq", ALLP + ["C16"], lambda c, row, val: (EQI, [row], [val]))
# ------------------------------------------------------------------ undoing one reduction
class Sol:
    def __init__(s, c, sol, st=None):
        s.px, s.py, s.pz = (c.get(sol, f, st=st) for f in "xyz"); s.x, s.y, s.z = (c.arr(p, st=st) for p in (s.px, s.py, s.pz))
def same_but(c, a, b, *ex):
    """a and b agree except at ex (needed where arrays are announced as a whole)"""
    q = z3.Int("q?s"); return z3.ForAll([q], z3.Or(*[q == e for e in ex], a[q] == b[q]), patterns=[a[q]])
def fa(c, q, f, a):
    """for all q (bounded search: the arbitrary constant q)"""
    return f if c.bmc else z3.ForAll([q], f, **({"patterns": [a]} if z3.is_const(a.arg(0)) else {}))
NR = INF          # "not retrieved"
# each relation: (state before, state after, parameters) -> list of (name, formula); used as postcondition of the retrieve function and as the meaning of the record in postsolver_run
def rel_fix(c, S, N, col, val, ck, vals, rows, n):
    return [("value", N.x[col] == val), ("reduced cost is c_k - a_k'y", N.z[col] == ck - c.sum(0, n, lambda t: vals[t] * S.y[rows[t]]))]
def rel_sub(c, S, N, k, cols, vals, n, rhs, i, ck, p):
    """p: the place of column k in the row"""
    oth = c.sum(0, n, lambda t: If(cols[t] == k, z3.RealVal(0), vals[t] * S.x[cols[t]]))
    return [("the row holds", N.x[k] * vals[p] == rhs - oth), ("reduced cost", N.z[k] == ck - vals[p] * S.y[i])]
def rel_pcol(c, S, N, idx, v):
    j, k, tj, tk = idx[0], idx[1], idx[2], idx[3]; lj, uj, lk, uk, r = (v[t] for t in range(5)); X = S.x[j]; xj, xk = N.x[j], N.x[k]; T_ = lambda t, m: has(z3.Int2BV(t, 8), m)
    inm = And(If(r > 0, And(Or(T_(tj, 1), T_(tk, 1), X >= lj + r * lk), Or(T_(tj, 4), T_(tk, 4), X <= uj + r * uk)), And(Or(T_(tj, 1), T_(tk, 4), X >= lj + r * uk), Or(T_(tj, 4), T_(tk, 1), X <= uj + r * lk))), Or(T_(tj, 1), T_(tj, 4), lj <= uj), Or(T_(tk, 1), T_(tk, 4), lk <= uk))
    return [("the merged variable is split exactly", xj + r * xk == X), ("second variable within its bounds", Implies(inm, And(Or(T_(tk, 1), xk > lk - TOL), Or(T_(tk, 4), xk < uk + TOL)))), ("first variable within its lower bound", Implies(inm, Or(T_(tj, 1), xj >= lj))), ("first variable within its upper bound", Implies(inm, Or(T_(tj, 4), xj <= uj))), ("reduced cost of the second variable", N.z[k] == r * S.z[j])]
def finf_block(c, S, idx, v, O, P, r, hi=None):
    """row r of a column fixed at infinity: (coefficient, right side minus the other retrieved columns)"""
    o = O[r]; col = idx[1]; n = idx[o] if hi is None else hi
    return v[o + 1 + P[r]], v[o] - c.sum(0, n, lambda t: If(Or(idx[simp(o + 1 + t)] == col, S.x[idx[simp(o + 1 + t)]] == NR), z3.RealVal(0), v[simp(o + 1 + t)] * S.x[idx[simp(o + 1 + t)]]))
def finf_pre(c, S, idx, v, O, P):
    n = z3.ToInt(v[0])
    return [v[0] == z3.ToReal(n), n >= 0, O[0] == 2] + [c.forall(0, n, f) for f in (lambda i: And(O[simp(i + 1)] == O[i] + 1 + idx[O[i]], idx[O[i]] >= 0), lambda i: And(0 <= P[i], P[i] < idx[O[i]], idx[O[i] + 1 + P[i]] == idx[1], v[O[i] + 1 + P[i]] != 0))] + [c.forall(0, n, lambda i: c.every(idx, simp(O[i] + 1), simp(O[i] + 1 + idx[O[i]]), lambda q, v: Implies(v == idx[1], q == O[i] + 1 + P[i])))]
def rel_finf(c, S, N, idx, v, O, P, r):
    col = idx[1]; a, side = finf_block(c, S, idx, v, O, P, r); up = idx[0] > 0
    return [("reduced cost", N.z[col] == 0), ("beyond the original bound", If(up, N.x[col] >= v[1], N.x[col] <= v[1])), ("every deleted row holds", Implies(And(0 <= r, r < z3.ToInt(v[0])), If(up, N.x[col] >= side / a, N.x[col] <= side / a)))]
def rel_drow(c, S, N, row, val): return [("multiplier", N.y[row] == val)]
def rel_arow(c, S, N, rows, vals): return [("multiplier of the added row", N.y[rows[0]] == S.y[rows[0]] + vals[0] * S.y[rows[1]])]
def rel_arows(c, S, N, i, rows, vals, n, aik): return [("multiplier of the substituting row", N.y[i] == S.y[i] + c.sum(0, n, lambda t: If(rows[t] == i, z3.RealVal(0), -((vals[t] / aik) * S.y[rows[t]]))))]
def near(a, b): return And(a - b <= TOL, b - a <= TOL)
def rel_bound(c, S, N, i, j, cols, vals, n, imp, oth, low, p):
    q = z3.Int("q?b"); keep = Or(And(near_eq(S.x[j], oth), If(low != 0, S.z[j] >= 0, S.z[j] <= 0)), Not(near_eq(S.x[j], imp)))
    aij = vals[p]
    return [("multiplier moves to the row exactly when the implied bound holds it", N.y[i] == S.y[i] + If(keep, z3.RealVal(0), S.z[j] / aij)),
            ("reduced cost of the variable", N.z[j] == If(keep, S.z[j], z3.RealVal(0))),
            ("reduced costs follow the row", c.every(cols, 0, n, lambda t, k: Implies(k != j, N.z[k] == If(Or(keep, S.z[k] == NR), S.z[k], S.z[k] - (vals[t] / aij) * S.z[j]))))]
def near_eq(a, b): return absr(a - b) <= TOL
def rel_side(lhs):
    def f(c, S, N, i, vals, cols, n, side, j, ratio):
        res = c.sum(0, n, lambda t: vals[t] * S.x[cols[t]]) - side; act = absr(res) <= TOL; good = (ratio * (ratio * S.y[i]) >= 0) if lhs else (ratio * (ratio * S.y[i]) <= 0)
        return [("multiplier of the other row", N.y[j] == If(act, If(good, ratio * S.y[i], z3.RealVal(0)), S.y[j])), ("multiplier of the changed row", N.y[i] == If(And(act, good), z3.RealVal(0), S.y[i]))]
    return f
rel_lhs, rel_rhs = rel_side(True), rel_side(False)
def rel_eqi(c, S, N, row, val): return [("multiplier", N.y[row] == S.y[row] + val)]
def retrieves(name, props, fr, body, pre=None):
    @contract("Postsolver.c", "retrieve_" + name, props)
    def _(c):
        sol = c.args[0]; S = Sol(c, sol)
        fr(c, S)
        post = body(c, S)
        yield
        N = Sol(c, sol)
        for n, f in post(N): c.ensures(n, f)
D = ["C02", "C04"]
def mod(S, c, **k):
    for f, i in k.items(): c.modifies(getattr(S, "p" + f), lo=i, hi=i + 1)
def _b(c, S):
    sol, col, val, ck, v, r, n = c.args; vals, rows = c.arr(v), c.arr(r); c.requires(n >= 0)
    mod(S, c, x=col, z=col)
    c.loop(0, lambda L: [("partial sum", Sol(c.at(L), sol).z[col] == ck - c.sum(0, L["i"], lambda t: vals[t] * S.y[rows[t]])), ("value set", Sol(c.at(L), sol).x[col] == val)])
    return lambda N: rel_fix(c, S, N, col, val, ck, vals, rows, n)
retrieves("fix_col", D + ["C03", "C13"], lambda c, S: None, _b)
def _b(c, S):
    sol, k, pc, pv, n, rhs, i, ck = c.args; cols, vals = c.arr(pc), c.arr(pv); p = c.ghost("place")
    c.requires(And(n >= 0, 0 <= p, p < n, cols[p] == k, vals[p] != 0)); c.requires(c.every(cols, 0, n, lambda t, v: Implies(v == k, t == p)), "the column occurs once")
    mod(S, c, x=k, z=k)
    part = lambda L: c.sum(0, L["ii"], lambda t: If(cols[t] == k, z3.RealVal(0), vals[t] * S.x[cols[t]]))
    c.loop(0, lambda L: [("partial sum", Sol(c.at(L), sol).x[k] == rhs - part(L)), ("coefficient found", Implies(L["ii"] > p, L["aik"] == vals[p]))])
    return lambda N: rel_sub(c, S, N, k, cols, vals, n, rhs, i, ck, p)
retrieves("sub_col", D + ["C15", "C16"], lambda c, S: None, _b)
def _b(c, S):
    sol, pi, pv = c.args; idx, v = c.arr(pi), c.arr(pv); c.requires(And(idx[0] != idx[1], v[4] != 0, 0 <= idx[2], idx[2] < 256, 0 <= idx[3], idx[3] < 256))
    for t in (0, 1): mod(S, c, x=idx[t])
    mod(S, c, z=idx[1])
    return lambda N: rel_pcol(c, S, N, idx, v) + [("reduced cost of the first variable kept", N.z[idx[0]] == S.z[idx[0]])]
retrieves("parallel_col", D + ["C19", "C03"], lambda c, S: None, _b)
def _b(c, S):
    sol, row, val = c.args; mod(S, c, y=row); return lambda N: rel_drow(c, S, N, row, val)
retrieves("deleted_row", ["C03", "C04"], lambda c, S: None, _b)
def _b(c, S):
    sol, r, v = c.args; rows, vals = c.arr(r), c.arr(v); mod(S, c, y=rows[0]); return lambda N: rel_arow(c, S, N, rows, vals)
retrieves("added_row", ["C04", "C15"], lambda c, S: None, _b)
def _b(c, S):
    sol, i, r, v, n, aik = c.args; rows, vals = c.arr(r), c.arr(v); c.requires(n >= 0); mod(S, c, y=i)
    c.loop(0, lambda L: [("partial sum", Sol(c.at(L), sol).y[i] == S.y[i] + c.sum(0, L["j"], lambda t: If(rows[t] == i, z3.RealVal(0), -((vals[t] / aik) * S.y[rows[t]]))))])
    return lambda N: rel_arows(c, S, N, i, rows, vals, n, aik)
retrieves("added_rows", ["C04", "C15"], lambda c, S: None, _b)
def _b(c, S):
    sol, i, j, pc, pv, n, imp, oth, low = c.args; cols, vals = c.arr(pc), c.arr(pv); p = c.ghost("place"); inv = c.ghost("inverse", z3.ArraySort(I, I))
    c.requires(And(n >= 0, 0 <= p, p < n, cols[p] == j, vals[p] != 0)); c.requires(c.every(cols, 0, n, lambda t, v: inv[v] == t), "columns occur once")
    c.modifies(S.py, lo=i, hi=i + 1); c.modifies(S.pz, lo=0, hi=None)
    aij = vals[p]
    c.loop(0, lambda L: [("not found before its place", L["ii"] <= p)])
    def upd(L):
        M = Sol(c.at(L), sol); q = z3.Int("q?u"); hi = L["ii"]
        inr = And(0 <= inv[q], inv[q] < hi, cols[inv[q]] == q, q != j, S.z[q] != NR)
        f = M.z[q] == If(inr, S.z[q] - (vals[inv[q]] / aij) * S.z[j], S.z[q])
        return [("reduced costs", fa(c, q, f, M.z[q]))]
    c.loop(1, upd)
    def post(N):
        e = rel_bound(c, S, N, i, j, cols, vals, n, imp, oth, low, p)
        q = z3.Int("q?f"); fr = Implies(Not(And(0 <= inv[q], inv[q] < n, cols[inv[q]] == q)), N.z[q] == S.z[q])
        e.append(("other reduced costs kept", fa(c, q, fr, N.z[q])))
        if c.mode == "verify":
            t = c.any("entry"); e.append(("a_k'y + z_k keeps its value for every retrieved column of the row", Implies(And(0 <= t, t < n, S.z[cols[t]] != NR), N.z[cols[t]] + vals[t] * N.y[i] == S.z[cols[t]] + vals[t] * S.y[i])))
        return e
    return post
retrieves("bound_change", ["C03", "C04", "C14"], lambda c, S: None, _b)
def side(lhs):
    def _b(c, S):
        sol, i, pv, pc, n, sd, j, ratio = c.args; cols, vals = c.arr(pc), c.arr(pv); c.requires(And(n >= 0, i != j))
        for t in (i, j): mod(S, c, y=t)
        c.loop(0, lambda L: [("residual", L["residual"] == c.sum(0, L["k"], lambda t: vals[t] * S.x[cols[t]]) - sd)])
        return lambda N: (rel_lhs if lhs else rel_rhs)(c, S, N, i, vals, cols, n, sd, j, ratio)
    retrieves("lhs_change" if lhs else "rhs_change", ["C03", "C04", "C18"], lambda c, S: None, _b)
side(True); side(False)
def _b(c, S):
    sol, row, val = c.args; mod(S, c, y=row); return lambda N: rel_eqi(c, S, N, row, val)
retrieves("eq_to_ineq", ["C04", "C16"], lambda c, S: None, _b)
def _b(c, S):
    sol, pi, pv = c.args; idx, v = c.arr(pi), c.arr(pv); O, P = c.ghost("offsets", IAS), c.ghost("place", IAS); r = c.ghost("row"); col = idx[1]
    for f in finf_pre(c, S, idx, v, O, P): c.requires(f, "record of a column fixed at infinity")
    mod(S, c, x=col, z=col)
    a, side = finf_block(c, S, idx, v, O, P, r); up = idx[0] > 0
    held = lambda i, e: [("bound", If(up, e >= v[1], e <= v[1])), ("row handled", Implies(And(0 <= r, r < i), If(up, e >= side / a, e <= side / a)))]
    c.loop(0, lambda L: [("block", And(0 <= L["i"], L["counter"] == O[L["i"]]))] + held(L["i"], L["extreme_val"]))
    def inner(L):
        i = L["i"]; _, part = finf_block(c, S, idx, v, O, P, i, L["j"])
        return [("partial sum", L["side"] == part), ("coefficient found", Implies(L["j"] > P[i], L["coeff"] == v[O[i] + 1 + P[i]]))]
    c.loop(1, inner)
    return lambda N: rel_finf(c, S, N, idx, v, O, P, r)
retrieves("fix_col_inf", ["C02", "C03", "C17"], lambda c, S: None, _b)
@contract("Postsolver.c", "copy_reduced_sol_to_orginal", ["C02", "C03", "C09", "C24", "C23"])
def _(c):
    sol, x, y, z, cm, rm = c.args; S = Sol(c, sol); nx, ny = c.get(sol, "dim_x"), c.get(sol, "dim_y"); X, Y, Z, C, R_ = c.arr(x), c.arr(y), c.arr(z), c.arr(cm), c.arr(rm)
    for p in (S.px, S.pz): c.modifies(p, lo=0, hi=nx)
    c.modifies(S.py, lo=0, hi=ny)
    c.requires(And(nx >= 0, ny >= 0))
    px = lambda M, hi: [("primal values", c.forall(0, hi, lambda i: M.x[i] == If(C[i] == -1, NR, X[C[i]]))), ("reduced costs", c.forall(0, hi, lambda i: M.z[i] == If(C[i] == -1, NR, Z[C[i]])))]
    py = lambda M, hi: [("multipliers", c.forall(0, hi, lambda i: M.y[i] == If(R_[i] == -1, NR, Y[R_[i]])))]
    c.loop(0, lambda L: px(Sol(c.at(L), sol), L["i"])); c.loop(1, lambda L: px(Sol(c.at(L), sol), nx) + py(Sol(c.at(L), sol), L["i"]))
    yield
    N = Sol(c, sol)
    for n, f in px(N, nx) + py(N, ny): c.ensures(n, f)
@contract("Postsolver.c", "postsolver_update", ["C24", "C09"])
def _(c):
    info, nc, nr, cm, rm = c.args; c.modifies(info, "n_cols_reduced"); c.modifies(info, "n_rows_reduced"); c.modifies_ptr(info, "col_map"); c.modifies_ptr(info, "row_map")
    yield
    if c.mode == "verify":
        c.ensures("sizes", And(c.get(info, "n_cols_reduced") == nc, c.get(info, "n_rows_reduced") == nr))
        for f, p in (("col_map", cm), ("row_map", rm)): c.ensures(f, c.eng.binop("==", c.get(info, f), p, None, c.st))
TYPES = (FC, FINF, SUBC, PCOL, DROW, AROW, AROWS, LHSC, RHSC, EQI, BTHE)
class Off:
    """array seen from an offset"""
    def __init__(s, a, o): s.a, s.o = a, o
    def __getitem__(s, i): return s.a[simp(s.o + i)]
    def raw(s): A, o = s.a.raw(); return A, simp(o + s.o)
def meaning(c, T, S, N, r, pl, inv):
    pl, offs, pls, row = pl
    """what undoing record r means: {type: (relation, entries changed in x, y, z)}"""
    st, n = T.starts[r], T.starts[r + 1] - T.starts[r]; I_, V = Off(T.indices, st), Off(T.vals, st); o = lambda a, k: Off(T.indices if a == "i" else T.vals, st + k)
    return {FC: (lambda: rel_fix(c, S, N, I_[0], V[0], V[1], o("v", 2), o("i", 2), n - 2), [I_[0]], [], [I_[0]]),
            SUBC: (lambda: rel_sub(c, S, N, I_[0], o("i", 1), o("v", 1), n - 2, V[0], I_[n - 1], V[n - 1], pl(r)), [I_[0]], [], [I_[0]]),
            FINF: (lambda: rel_finf(c, S, N, I_, V, offs(r), pls(r), row), [I_[1]], [], [I_[1]]),
            PCOL: (lambda: rel_pcol(c, S, N, I_, V), [I_[0], I_[1]], [], [I_[1]]),
            DROW: (lambda: rel_drow(c, S, N, I_[0], V[0]), [], [I_[0]], []),
            AROW: (lambda: rel_arow(c, S, N, I_, V), [], [I_[0]], []),
            AROWS: (lambda: rel_arows(c, S, N, I_[0], o("i", 1), o("v", 1), n - 1, V[0]), [], [I_[0]], []),
            LHSC: (lambda: rel_lhs(c, S, N, I_[0], o("v", 2), o("i", 2), n - 2, V[0], I_[1], V[1]), [], [I_[0], I_[1]], []),
            RHSC: (lambda: rel_rhs(c, S, N, I_[0], o("v", 2), o("i", 2), n - 2, V[0], I_[1], V[1]), [], [I_[0], I_[1]], []),
            EQI: (lambda: rel_eqi(c, S, N, I_[0], V[0]), [], [I_[0]], [])}
def bound_meaning(c, T, S, N, r, j, inv):
    """record j (a bound change) undone with the row of record r"""
    st, n = T.starts[r], T.starts[r + 1] - T.starts[r]; sj = T.starts[j]; col = T.indices[sj]
    return rel_bound(c, S, N, T.indices[st], col, Off(T.indices, st + 1), Off(T.vals, st + 1), n - 1, T.vals[sj], T.vals[sj + 1], T.indices[simp(sj + 1)], z3.Select(inv(r), col)), [], [T.indices[st]], None
def kept(c, a, b, ex):
    if ex is None: return z3.BoolVal(True)
    q = z3.Int("q?k"); return fa(c, q, Or([q == e for e in ex] + [a[q] == b[q]]), a[q])
def keeps(c, S, N, x, y, z): return [("other values kept", kept(c, N.x, S.x, x)), ("other multipliers kept", kept(c, N.y, S.y, y)), ("other reduced costs kept", kept(c, N.z, S.z, z))]
@contract("Postsolver.c", "postsolver_run", ["C02", "C03", "C04", "C09", "C23", "C24"], callable=False, bmc=(2,))
def _(c):
    info, sol, x, y, z = c.args; S = Sol(c, sol); T = Tape(c, info); n = T.n
    cm, rm = c.get(info, "col_map"), c.get(info, "row_map"); C, R_ = c.arr(cm), c.arr(rm); X, Y, Z = c.arr(x), c.arr(y), c.arr(z); nx, ny = c.get(sol, "dim_x"), c.get(sol, "dim_y")
    c.requires(And(nx >= 0, ny >= 0)); c.requires(T.wf()); c.requires(T.starts[0] == 0)
    offs, pls, row = c.ghost_fn("offsets", I, IAS), c.ghost_fn("places", I, IAS), c.any("row")
    pl, lo, inv, rows = c.ghost_fn("place", I, I), c.ghost_fn("first", I, I), c.ghost_fn("inverse", I, IAS), None
    cnt = lambda r: c.count(0, r, lambda t: isbv(T.type[t], BNO))
    def grammar(r):
        st, k = T.starts[r], T.starts[r + 1] - T.starts[r]; I_, V = Off(T.indices, st), Off(T.vals, st); ty = lambda t: isbv(T.type[r], t)
        sub = And(k >= 3, 0 <= pl(r), pl(r) < k - 2, I_[1 + pl(r)] == I_[0], V[1 + pl(r)] != 0, c.every(I_, 1, k - 1, lambda q, v: Implies(v == I_[0], q - 1 == pl(r))))
        the = And(k >= 1, 0 <= lo(r), lo(r) < r, V[0] == z3.ToReal(cnt(r) - cnt(lo(r))), c.forall(lo(r) + 1, r + 1, lambda q: cnt(q) > cnt(lo(r))),
                  c.forall(lo(r), r, lambda q: And(Or(isbv(T.type[q], BNO), isbv(T.type[q], FC)), Implies(isbv(T.type[q], BNO), And(0 <= z3.Select(inv(r), T.indices[T.starts[q]]), z3.Select(inv(r), T.indices[T.starts[q]]) < k - 1, I_[1 + z3.Select(inv(r), T.indices[T.starts[q]])] == T.indices[T.starts[q]], V[1 + z3.Select(inv(r), T.indices[T.starts[q]])] != 0)))), c.every(I_, 1, k, lambda q, v: z3.Select(inv(r), v) == q - 1))
        return [Implies(ty(SUBC), sub), Implies(ty(BTHE), the), Implies(ty(PCOL), And(k == 5, I_[0] != I_[1], V[4] != 0, 0 <= I_[2], I_[2] < 256, 0 <= I_[3], I_[3] < 256)),
                Implies(ty(FC), k >= 2), Implies(ty(AROWS), k >= 1), Implies(Or(ty(LHSC), ty(RHSC)), And(k >= 2, I_[0] != I_[1])), ] + [Implies(ty(FINF), f) for f in finf_pre(c, S, I_, V, offs(r), pls(r))]
    if c.bmc:
        T0 = T
        for r in range(2): c.requires(Implies(r < n, And(grammar(z3.IntVal(r)))))
        c.requires(And(n <= 2, 0 <= T.starts[1], Implies(n == 2, T.starts[1] <= T.starts[2])))
        c.requires(Implies(n >= 1, T.starts[1] <= 4)); c.requires(Implies(n == 2, T.starts[2] <= 7))
    else:
        for t in range(len(grammar(z3.IntVal(0)))): c.requires(c.forall(0, n, lambda r: grammar(r)[t], pat=lambda r: T.type[r]))
    for p in (S.px, S.py, S.pz): c.modifies(p, lo=0, hi=None)
    c.at_call("retrieve_sub_col", lambda L, a: dict(place=pl(L["i"]))); c.at_call("retrieve_bound_change", lambda L, a: dict(place=z3.Select(inv(L["i"]), a[2]), inverse=inv(L["i"])))
    c.at_call("retrieve_fix_col_inf", lambda L, a: dict(offsets=offs(L["i"]), place=pls(L["i"]), row=row))
    def step(L, M):
        r, A, N = L["i"], Sol(c.at(L), sol), Sol(c.at(M), sol); out = []
        for ty, (rel, ex, ey, ez) in meaning(c, T, A, N, r, (pl, offs, pls, row), inv).items():
            for nm, f in rel() + keeps(c, A, N, ex, ey, ez) + [("exactly this record", M["i"] == r - 1)]: out.append((f"record of type {ty}: {nm}", Implies(isbv(T.type[r], ty), f)))
        out.append(("a row and its bound changes are undone together", Implies(isbv(T.type[r], BTHE), M["i"] == lo(r) - 1)))
        out.append(("a bound change is undone with its row", Implies(isbv(T.type[r], BNO), M["i"] == r - 1)))
        return out
    def istep(L, M):
        r, j, A, N = L["i"], L["j"], Sol(c.at(L), sol), Sol(c.at(M), sol); m = meaning(c, T, A, N, j, (pl, offs, pls, row), inv)[FC]; bm, bx, by, bz = bound_meaning(c, T, A, N, r, j, inv)
        return [(f"fixed column in between: {nm}", Implies(isbv(T.type[j], FC), f)) for nm, f in m[0]() + keeps(c, A, N, *m[1:])] + [(f"bound change: {nm}", Implies(isbv(T.type[j], BNO), f)) for nm, f in bm + keeps(c, A, N, bx, by, bz)] + [("exactly this record", M["j"] == j - 1)]
    c.loop(0, lambda L: [("records left", And(-1 <= L["i"], L["i"] < n))], step=step)
    c.loop(1, lambda L: [("between the first bound change and the row", And(lo(L["i"]) - 1 <= L["j"], L["j"] < L["i"])), ("bound changes processed", L["bound_changes_processed"] == cnt(L["i"]) - cnt(L["j"] + 1))], step=istep)
    yield
    if not c.bmc: return
    N = Sol(c, sol)
    class Cp:          # the reduced solution put in place
        pass
    A = Cp(); old = Sol(c, sol, st=c.old)
    class F:
        def __init__(s, f): s.f = f
        def __getitem__(s, i): return s.f(i)
    A.x = F(lambda i: If(And(0 <= i, i < nx), If(C[i] == -1, NR, X[C[i]]), old.x[i])); A.z = F(lambda i: If(And(0 <= i, i < nx), If(C[i] == -1, NR, Z[C[i]]), old.z[i])); A.y = F(lambda i: If(And(0 <= i, i < ny), If(R_[i] == -1, NR, Y[R_[i]]), old.y[i]))
    z0 = z3.IntVal(0); q = z3.Int("q?any")
    c.ensures("the reduced solution is put in place", Implies(n == 0, And(N.x[q] == A.x[q], N.y[q] == A.y[q], N.z[q] == A.z[q])))
    for ty, (rel, ex, ey, ez) in meaning(c, T, A, N, z0, (pl, offs, pls, row), inv).items():
        for nm, f in rel() + keeps(c, A, N, ex, ey, ez): c.ensures(f"record of type {ty}: {nm}", Implies(And(n == 1, isbv(T.type[0], ty)), f))
    bm, bx, by, bz = bound_meaning(c, T, A, N, z3.IntVal(1), z0, inv)
    for nm, f in bm + keeps(c, A, N, bx, by, bz): c.ensures(f"bound change: {nm}", Implies(And(n == 2, isbv(T.type[0], BNO), isbv(T.type[1], BTHE), T.vals[T.starts[1]] == 1), f))
    r0, r1 = T.indices[0], T.indices[T.starts[1]]; v0, v1 = T.vals[0], T.vals[T.starts[1]]
    c.ensures("later records are undone first", Implies(And(n == 2, isbv(T.type[0], EQI), isbv(T.type[1], DROW), r0 == r1), N.y[r0] == v0 + v1))
from matrix import Mtx
@contract("Postsolver.c", "save_retrieval_fixed_col_inf", ["C02", "C17", "C23"], bmc=(2,))
def _(c):
    info, col, sign, cons, bound = c.args; T0 = Tape(c, info); c.requires(T0.wf(), "tape well formed")
    A, AT = Mtx(c, c.get(cons, "A")), Mtx(c, c.get(cons, "AT")); rt, ct = c.arr(c.get(cons, "row_tags")), c.arr(c.get(cons, "col_tags")); lhs, rhs = c.arr(c.get(cons, "lhs")), c.arr(c.get(cons, "rhs")); bd = c.arr(c.get(cons, "bounds")); rs = c.arr(c.get(c.get(cons, "state"), "row_sizes"))
    O = c.ghost("offsets", IAS); q, j = c.ghost("row"), c.ghost("entry"); s0 = AT.start[col]; nr = AT.end[col] - s0; row = lambda i: AT.i[s0 + i]
    c.requires(And(nr >= 0, O[0] == 2)); c.requires(c.forall(0, nr, lambda i: And(O[simp(i + 1)] == O[i] + 1 + rs[row(i)], rs[row(i)] >= 0, O[i] >= 2), pat=lambda i: O[i]), "offsets of the blocks")
    c.requires(c.forall(0, nr + 1, lambda i: And(2 <= O[i], O[i] <= O[nr]), pat=lambda i: O[i]), "offsets grow")
    c.requires(And(0 <= q, q < nr, 0 <= j, j < rs[row(q)]))
    c.requires(c.forall(0, nr, lambda i: Implies(i != q, Or(O[i] >= O[simp(q + 1)], O[simp(i + 1)] <= O[q]))), "blocks do not overlap")
    T0.grows(1, O[nr])
    if c.mode == "verify":
        for f in ("type", "starts", "indices", "vals"): c.modifies_ptr(getattr(T0, f + "_v"), "data")
    e = T0.end; fixed = lambda t: And(has(ct[A.i[t]], 16), bd.lb[A.i[t]] < INF, bd.lb[A.i[t]] > -INF)
    def side(r, hi=None):
        base = If(And(has(rt[r], 1), has(rt[r], 2)), 0, If(has(rt[r], 1), rhs[r], lhs[r])); s_ = A.start[r]
        return base - c.sum(s_, s_ + rs[r] if hi is None else hi, lambda t: If(fixed(t), A.x[t] * bd.lb[A.i[t]], z3.RealVal(0)))
    def head(T, n): return [("type", isbv(T.type[T0.n], FINF)), ("sign and column", And(T.indices[e] == sign, T.indices[e + 1] == col)), ("number of rows and bound", And(T.vals[e] == z3.ToReal(n), T.vals[e + 1] == bound))]
    def block(T):
        o = simp(e + O[q]); r = row(q)
        return [("row length", T.indices[o] == rs[r]), ("columns", T.indices[simp(o + 1 + j)] == A.i[simp(A.start[r] + j)]), ("side without the fixed columns", T.vals[o] == side(r)), ("coefficients", T.vals[simp(o + 1 + j)] == A.x[simp(A.start[r] + j)])]
    def lens(T, i): return And(T.n == T0.n + 1, T.starts_n == T0.n + 1, T.indices_n == e + O[i], T.vals_n == e + O[i], *[And(0 <= getattr(T, f + "_n"), getattr(T, f + "_n") <= getattr(T, f + "_cap"), getattr(T, f + "_cap") >= 1) for f in ("type", "starts", "indices", "vals")])
    def inv(L):
        T = Tape(c.at(L), info); i = L["i"]
        return [("lengths", lens(T, i)), ("block", And(0 <= i, Or(i <= nr)))] + head(T, nr) + [(n, Implies(q < i, f)) for n, f in block(T)]
    c.loop(0, inv)
    c.loop(1, lambda L: [("partial sum", L["side"] == side(L["row"], L["ii"]))])
    yield
    T1 = Tape(c, info)
    for n, f in head(T1, nr) + block(T1): c.ensures(n, f)
    c.ensures("record ends after its entries", T1.starts[T0.n + 1] == e + O[nr]); c.ensures("one record more", T1.n == T0.n + 1); c.ensures("tape well formed", T1.wf())
    if c.mode == "verify": c.ensures("earlier records kept", And(c.forall(0, T0.n, lambda r: And(to_bv(T1.type[r], 16) == to_bv(T0.type[r], 16))), c.forall(0, T0.n + 1, lambda r: T1.starts[r] == T0.starts[r]), c.forall(0, T0.end, lambda r: And(T1.indices[r] == T0.indices[r], T1.vals[r] == T0.vals[r]))))
