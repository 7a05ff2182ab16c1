"""Parallel rows (C18, C19): which rows are grouped, what the remaining row's sides become, when a group is contradictory."""
from spec import *
import z3
from core import *
from simple import DEL, inner_frame, ALL8
from control import local
from postsolve import DROW
FILE = "Parallel_rows.c"
class Shift:
    """a ghost function plus a constant"""
    def __init__(s, f, k): s.f, s.k = f, k
    def __getitem__(s, x): return simp(s.f[x] + s.k)
class Rng:
    """ranges and entries of the rows of a matrix given by pointer"""
    def __init__(s, c, p): a = c.arr(c.get(p, "p")); s.s, s.e, s.x, s.i, s.m = a.start, a.end, c.arr(c.get(p, "x")), c.arr(c.get(p, "i")), c.get(p, "m")
    def like(s, c, a, b, hi):
        """columns and scaled coefficients of rows a and b agree in the first hi entries (a name for the formula, see define)"""
        if c.bmc: return s.like_(c, a, b, hi)
        ts = [v for y in (s.s, s.x, s.i) for v in y.raw()] + [a, b, hi]; ts = [to_int(t) if not z3.is_expr(t) else t for t in ts]
        return z3.Function("like", *[t.sort() for t in ts], B)(*ts)
    def like_(s, c, a, b, hi):
        r = s.x[s.s[a]] / s.x[s.s[b]]; return c.forall(0, hi, lambda t: And(s.i[s.s[a] + t] == s.i[s.s[b] + t], absr(s.x[s.s[a] + t] - r * s.x[s.s[b] + t]) <= TOL))
    def define(s, c, a, hi):
        """what the name stands for, for one first row"""
        if c.bmc: return
        v = z3.Int("i?like"); f = s.like(c, a, v, hi); c.eng.assume(c.st, z3.ForAll([v], f == s.like_(c, a, v, hi), patterns=[f]))
    def parallel(s, c, a, b):
        """rows a and b have the same columns and coefficients that agree up to a factor"""
        return And(s.e[a] - s.s[a] == s.e[b] - s.s[b], s.like(c, a, b, s.e[b] - s.s[b]))
def pairs(c, a, lo, n, f):
    """f(value, value, place of the second) for the elements of a at lo .. lo + n, first before second"""
    if c.bmc: return c.forall(0, n, lambda y: c.forall(0, y, lambda x: f(a[lo + x], a[lo + y], y)))
    A, o = a.raw(); o = simp(o + lo); c.eng.fresh_n += 1; x, y = z3.Ints(f"x?{c.eng.fresh_n} y?{c.eng.fresh_n}"); u, v = z3.Select(A, x), z3.Select(A, y)
    return z3.ForAll([x, y], z3.Implies(z3.And(o <= x, x < y, y < o + n), f(u, v, simp(y - o))), **({"patterns": [z3.MultiPattern(u, v)]} if z3.is_const(A) else {}))
@contract(FILE, "find_parallel_rows_in_bin", ["C18", "C19"], bmc=(2, 3))
def _(c):
    A, bin_, n, out, groups = c.args; r = bin_.one()[1]
    if c.mode == "verify": out = c.args[3] = P(r, c.eng.fresh("out", I)); bin_ = c.args[1] = P(r, c.eng.fresh("bin", I))          # both lie in the same array
    M = Rng(c, A); G = Lst(c, groups); arr = c.arr(P(r)); ob, oo = bin_.one()[2], out.one()[2]; inv = c.ghost("inverse", IA); b0 = arr[ob]
    c.requires(And(n >= 1, oo <= ob, oo >= 0), "results are stored before the bin"); c.requires(And(G.wf(), G.n >= 1), "list well formed"); c.requires(c.every(arr, ob, ob + n, lambda p, v: inv[v] == p), "rows listed once"); c.requires(c.forall(ob, ob + n, lambda p: M.s[arr[p]] <= M.e[arr[p]]), "row ranges"); c.requires(And(M.s[b0] < M.e[b0], M.x[M.s[b0]] != 0), "the first row is not empty")
    c.modifies(out, lo=0, hi=n); G.grows(1)
    if c.mode == "verify": M.define(c, b0, M.e[b0] - M.s[b0])
    def found(c2, k, hi, last=False):
        R1 = c2.arr(P(r)); end = lambda p: And(last, p == oo + k - 1)
        return [("results come from the bin", c.every(R1, oo, oo + k, lambda p, v: And(arr[inv[v]] == v, Or(And(ob < inv[v], inv[v] < ob + hi), And(inv[v] == ob, end(p)))))), *([("no row occurs twice", pairs(c, R1, oo, k, lambda u, v, y: u != v))] if last else [("results in order", pairs(c, R1, oo, k, lambda u, v, y: inv[u] < inv[v]))]),
                ("results have the length of the first row", c.every(R1, oo, oo + k, lambda p, v: M.e[b0] - M.s[b0] == M.e[v] - M.s[v])), ("results are parallel to the first row", c.every(R1, oo, oo + k, lambda p, v: M.like(c, b0, v, M.e[b0] - M.s[b0])))]
    c.loop(0, lambda L: found(c.at(L), L["n_new_parallel_rows"], L["i"]) + [("the rest of the bin is untouched", c.forall(L["i"], n, lambda t: c.at(L).arr(P(r))[ob + t] == arr[ob + t])), ("number of results", And(0 <= L["n_new_parallel_rows"], L["n_new_parallel_rows"] < L["i"], 1 <= L["i"]))])
    c.loop(1, lambda L: [("entries so far agree", M.like_(c, b0, arr[ob + L["i"]], L["j"])), ("agreement of all entries", Implies(L["j"] == M.e[b0] - M.s[b0], M.like(c, b0, arr[ob + L["i"]], M.e[b0] - M.s[b0]))), ("range", L["j"] >= 0)])
    yield
    k = c.result; G1 = G.now()
    c.ensures("number of results", And(0 <= k, k <= n, k != 1))
    for nm, f in found(c, k, n, True): c.ensures(nm, Implies(k > 0, f))
    c.ensures("the first row comes last", Implies(k > 0, c.arr(P(r))[oo + k - 1] == b0)); c.ensures("a group is added for the results", And(G1.wf(), G1.n == G.n + If(k > 0, 1, 0), Implies(k > 0, G1.a[G.n] == G.a[G.n - 1] + k)))
def hashed(name, i):
    @contract(FILE, name, [], key=name + "/any", assumed=f"{name} returns some number and changes nothing (rows with different hashes are only not compared)")
    def _(c):
        yield
hashed("hash_int_array", 0); hashed("hash_double_array_with_scale", 1)
@contract(FILE, "compute_supp_and_coeff_hash", ["C18", "C19"], opaque={n: n + "/any" for n in ("hash_int_array", "hash_double_array_with_scale")})
def _(c):
    A, tags, ids, hs, ina = c.args; c.modifies(ids, lo=0, hi=None); c.modifies(hs, lo=0, hi=None); c.loop(0, lambda L: [])
    yield
@contract(FILE, "sort_rows", [], key="sort_rows/permutes", assumed="sort_rows permutes its array (C library qsort)")
def _(c):
    rows, n, ids, hs = c.args; c.modifies(rows, lo=0, hi=n); old = c.arr(rows); o = rows.one()[2]; r = rows.one()[1]; inv = c.ghost("inverse", IA); c.requires(c.every(old, 0, n, lambda p, v: v == p), "the numbers below n")
    yield
    c.ensures("permutation of the numbers below n", c.every(c.arr(P(r)), o, o + n, lambda p, v: And(0 <= v, v < n, inv[v] == p)))
@contract(FILE, "get_bin_size", ["C18", "C19"])
def _(c):
    start, n, rows, ids, hs = c.args; r, i_, h = c.arr(rows), c.arr(ids), c.arr(hs); c.requires(And(0 <= start, start < n))
    same = lambda hi: c.forall(start, hi, lambda t: And(i_[r[t]] == i_[r[start]], h[r[t]] == h[r[start]]))
    c.loop(0, lambda L: [("equal hashes so far", same(L["i"])), ("range", And(start < L["i"], L["i"] <= n))])
    yield
    c.ensures("the bin lies in the array", And(c.result >= 1, start + c.result <= n)); c.ensures("equal hashes in the bin", same(start + c.result))
@contract(FILE, "find_parallel_rows", ["C18", "C19"], opaque={"compute_supp_and_coeff_hash": "compute_supp_and_coeff_hash", "sort_rows": "sort_rows/permutes"}, bmc=(3,))
def _(c):
    A, tags, groups, rows, ids, hs, ina = c.args; M = Rng(c, A); t_ = c.arr(tags); G = Lst(c, groups); c.requires(And(G.wf(), M.m >= 0, M.m < 2**31 - 1)); inact = lambda i: to_bv(t_[i], 8) & to_bv(ina, 8) != 0
    c.requires(c.forall(0, M.m, lambda i: If(inact(i), M.s[i] == M.e[i], And(M.s[i] < M.e[i], M.x[M.s[i]] != 0))), "inactive rows are empty, the others are not")
    c.modifies(rows, lo=0, hi=None); c.modifies(ids, lo=0, hi=None); c.modifies(hs, lo=0, hi=None); c.modifies(groups, "len"); c.modifies(groups, "capacity"); c.modifies(G.d, lo=0, hi=None)
    if c.bmc: c.modifies_ptr(groups, "data")
    r = rows.one()[1]; inv = c.eng.fresh("inverse", IA); g, q = c.any("group", "place"); c.at_call("sort_rows/permutes", lambda L, a: dict(inverse=inv)); c.at_call("find_parallel_rows_in_bin", lambda L, a: dict(inverse=inv)); o = rows.one()[2]
    def groups_ok(c2, tot, i):
        G1, R1 = G.now(c2), c2.arr(rows)
        return [("groups", And(G1.wf(), G1.n >= 1, 2 * (G1.n - 1) <= tot, G1.a[0] == 0, G1.a[G1.n - 1] == tot, c.forall(0, G1.n - 1, lambda h: And(G1.a[h] + 2 <= G1.a[h + 1], 0 <= G1.a[h], G1.a[h + 1] <= tot)))),
                ("results are active rows", c.every(R1, 0, tot, lambda p, v: And(0 <= v, v < M.m, Not(inact(v))))), ("no row occurs twice", pairs(c, R1, 0, tot, lambda u, v, y: u != v)),
                ("the rows of a group are parallel to its last one", Implies(And(0 <= g, g < G1.n - 1, G1.a[g] <= q, q < G1.a[g + 1]), And(M.parallel(c, R1[G1.a[g + 1] - 1], R1[q]))))]
    def inv0(L):
        k = c.at(L); i, tot = L["i"], L["n_p_rows_total"]; R1 = k.arr(rows)
        return groups_ok(k, tot, i)[:2] + [("results so far lie before the current row", And(0 <= tot, tot <= i, i <= M.m)), ("rows to come are untouched", c.every(k.arr(P(r)), o + i, o + M.m, lambda p, v: And(0 <= v, v < M.m, inv[v] == p))), ("results were sorted before the current row", c.every(R1, 0, tot, lambda p, v: inv[v] < o + i))] + groups_ok(k, tot, i)[2:]
    c.loop(0, lambda L: [("numbers so far", c.forall(0, L["i"], lambda t: c.at(L).arr(rows)[t] == t)), ("range", L["i"] >= 0)])
    c.loop(1, inv0)
    yield
    G1, R1 = G.now(), c.arr(rows)
    fs = groups_ok(c, G1.a[G1.n - 1], M.m)
    for n_, f in fs[:-1]: c.ensures(n_, f)
    c.ensures_any(fs[-1][0], [g, q], fs[-1][1])
    c.ensures("results fit", And(0 <= G1.a[G1.n - 1], G1.a[G1.n - 1] <= M.m))
# ------------------------------------------------------------------ one group: the row that stays gets the tightest sides
def others(c, f): r = z3.Int("r?any" if c.bmc else "r?"); return f(r) if c.bmc else z3.ForAll([r], f(r))
def scaled(N, D, j, o):
    """(has upper, upper, has lower, lower, both equal) of row o expressed in terms of row j"""
    ratio = D.A.x[D.A.start[j]] / D.A.x[D.A.start[o]]; pos = ratio > 0; ri, li = has(N.rt[o], RHSI), has(N.rt[o], LHSI)
    return If(pos, Not(ri), Not(li)), If(pos, N.rhs[o], N.lhs[o]) * ratio, If(pos, Not(li), Not(ri)), If(pos, N.lhs[o], N.rhs[o]) * ratio, ratio
@contract(FILE, "process_single_bin", ["C18", "C19", "C05", "C03", "C04", "C23"], key="process_single_bin/rows", callable=False, bmc=(2,))
def _(c):
    cons, bin_, nb = c.args; D = Cons(c, cons).mtx(); b = c.arr(bin_); T0 = Tape(c, D.info); R0, E0 = D.lst("rows_to_delete"), D.lst("dton_rows"); o = bin_.one()[2]
    for x in (T0, R0, E0): c.requires(x.wf(), "lists well formed")
    c.requires(nb > 1, "at least two rows"); inv = c.ghost("inverse", IA); c.requires(c.every(b, 0, nb, lambda t, v: inv[v] == t), "rows listed once")
    c.requires(c.every(b, 0, nb, lambda t, v: And(v >= 0, D.A.start[v] < D.A.end[v], D.A.x[D.A.start[v]] != 0, Not(has(D.rt[v], RIN)), Implies(has(D.rt[v], EQ), And(D.lhs[v] == D.rhs[v], Not(has(D.rt[v], RHSI)), Not(has(D.rt[v], LHSI)))))), "active rows, not empty")
    q = c.ghost("entry"); c.requires(And(0 <= q, q < nb))
    for f in ("up", "down"): c.modifies(c.get(D.st, "col_locks"), f, lo=0, hi=None)
    c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); c.modifies(D.prt, lo=0, hi=None); T0.grows(); R0.grows(); E0.grows()
    iseq = lambda v: has(D.rt[v], EQ)
    def stays(j, hi): return And(b[inv[j]] == j, 0 <= inv[j], inv[j] < nb, If(iseq(j), c.every(b, 0, simp(inv[j]), lambda t, v: Not(iseq(v))), And(inv[j] == 0, c.every(b, 0, hi, lambda t, v: Not(iseq(v))))))
    def conflict(j, v):
        hu, u, hl, l, r = scaled(D, D, j, v); x = D.rhs[j]
        return If(iseq(v), absr(x - D.rhs[v] * r) > TOL, Or(And(hu, x >= u + TOL), And(hl, x <= l - TOL)))
    def tight(j, hi, R, rinf, ri, rf, L, linf, li, lf, q=None):
        """the sides (R, L) are the tightest among those of j and the rows before hi"""
        out = []
        for nm, S, isinf, k, f, up in (("right", R, rinf, ri, rf, True), ("left", L, linf, li, lf, False)):
            own, oinf = (D.rhs[j], has(D.rt[j], RHSI)) if up else (D.lhs[j], has(D.rt[j], LHSI)); sc = lambda v: scaled(D, D, j, v)
            w = sc(k); le = (lambda a, b_: a <= b_) if up else (lambda a, b_: a >= b_)
            out += [(f"{nm} side: no row is tighter", c.every(b, 0, hi, lambda t, v: Implies(v != j, Implies(sc(v)[0 if up else 2], And(Not(isinf), le(S, sc(v)[1 if up else 3])))))), (f"{nm} side: own side not loosened", If(isinf, And(oinf, k == -1), Or(oinf, le(S, own)))),
                    (f"{nm} side comes from the row named", If(k == -1, And(S == own, isinf == oinf), And(b[inv[k]] == k, 0 <= inv[k], inv[k] < hi, k != j, Not(isinf), w[0 if up else 2], S == w[1 if up else 3], f == w[4])))]
        return out
    loc = lambda L: (L["remaining_row_new_rhs"], tobool(L["is_rhs_inf_remaining_row"]), L["other_row_rhs_index"], L["other_row_rhs_scale_factor"], L["remaining_row_new_lhs"], tobool(L["is_lhs_inf_remaining_row"]), L["other_row_lhs_index"], L["other_row_lhs_scale_factor"])
    c.loop(0, lambda L: [("no equation so far", c.every(b, 0, L["i"], lambda t, v: Not(iseq(v)))), ("the first row stays", L["remaining_row_idx"] == b[0]), ("range", And(0 <= L["i"], L["i"] <= nb))])
    def inv1(L):
        j, i = L["remaining_row_idx"], L["i"]
        return [("range", And(0 <= i, i <= nb)), ("an equation, if there is one, stays", stays(j, nb)), ("own data", And(tobool(L["is_remaining_row_eq"]) == iseq(j), L["remaining_row_coeff"] == D.A.x[D.A.start[j]], Implies(iseq(j), And(L["remaining_row_new_rhs"] == D.rhs[j])))),
                ("nothing conflicts with the equation", c.every(b, 0, i, lambda t, v: Implies(And(iseq(j), v != j), Not(conflict(j, v)))))] + [(n, Implies(Not(iseq(j)), f)) for n, f in tight(j, i, *loc(L))]
    c.loop(1, inv1, each=lambda L0, L1, how: [("infeasible only when a row conflicts with the equation", And(how == "return", iseq(L0["remaining_row_idx"]), b[L0["i"]] != L0["remaining_row_idx"], conflict(L0["remaining_row_idx"], b[L0["i"]])))] if how == "return" else [])
    def cross(j):
        """the tightest sides (of the rows named in the local variables) cross or touch"""
        ri, li = named["rhs"], named["lhs"]; w, x = scaled(D, D, j, ri), scaled(D, D, j, li); mine = lambda k: And(b[inv[k]] == k, 0 <= inv[k], inv[k] < nb, k != j)
        return And(If(ri == -1, Not(has(D.rt[j], RHSI)), And(mine(ri), w[0])), If(li == -1, Not(has(D.rt[j], LHSI)), And(mine(li), x[2])), Or(If(li == -1, D.lhs[j], x[3]) >= If(ri == -1, D.rhs[j], w[1]), And(Not(has(D.rt[j], LHSI)), D.lhs[j] >= If(ri == -1, D.rhs[j], w[1]) + TOL)))
    def gone(c2, j, i):
        N, R1, T1 = Cons(c2, cons), R0.now(c2), Tape(c2, D.info); k = simp(i - If(inv[j] < i, 1, 0)); K = T1.n - k; p = K + q - If(inv[j] < q, 1, 0); r = z3.Int("r?any" if c.bmc else "r?"); tg = Implies(r != j, eqt(N.rt[r], If(And(0 <= inv[r], inv[r] < i, b[inv[r]] == r), bor(D.rt[r], RIN), to_bv(D.rt[r], 8))))
        return [("the other rows so far are inactive", tg if c.bmc else z3.ForAll([r], tg)), ("the remaining row is active", Not(has(N.rt[j], RIN))), ("inactive rows are listed", And(R1.wf(), R1.n == R0.n + k, E0.now(c2).wf(), c.every(b, 0, i, lambda t, v: Implies(v != j, R1.a[R0.n + t - If(inv[j] < t, 1, 0)] == v)))),
                ("one record each, after those of the sides", And(T1.wf(), T1.end >= T0.end, T0.n <= K, K <= T0.n + 2)), *[(f"record of a removed row, {nm}", Implies(And(q < i, q != inv[j]), f)) for nm, f in (("place", And(T0.end <= T1.starts[p], T1.starts[p] < T1.end)), ("kind", isbv(T1.type[p], DROW)), ("row", T1.indices[T1.starts[p]] == b[q]), ("dual value", T1.vals[T1.starts[p]] == 0))]]
    def result(c2, j):
        """the sides of the remaining row afterwards"""
        N = Cons(c2, cons); out = [("the sides of an equation stay", Implies(iseq(j), And(N.rhs[j] == D.rhs[j], N.lhs[j] == D.lhs[j], c.every(b, 0, nb, lambda t, v: Implies(v != j, Not(conflict(j, v)))))))]
        for nm, up in (("right", True), ("left", False)):
            inf = has(N.rt[j], RHSI if up else LHSI); S = N.rhs[j] if up else N.lhs[j]; sc = lambda v: scaled(D, D, j, v); own, oinf = (D.rhs[j], has(D.rt[j], RHSI)) if up else (D.lhs[j], has(D.rt[j], LHSI)); le = (lambda a, x: a <= x + TOL) if up else (lambda a, x: a >= x - TOL)
            out += [(f"{nm} side at least as tight as that of every row removed", Implies(Not(iseq(j)), c.every(b, 0, nb, lambda t, v: Implies(And(v != j, sc(v)[0 if up else 2]), le(S, sc(v)[1 if up else 3]))))), (f"{nm} side at least as tight as before", Implies(Not(iseq(j)), Or(oinf, le(S, own))))]
        r = z3.Int("r?any" if c.bmc else "r?"); f = Implies(r != j, And(N.rhs[r] == D.rhs[r], N.lhs[r] == D.lhs[r])); out.append(("other rows keep their sides", f if c.bmc else z3.ForAll([r], f)))
        return out
    c.loop(2, lambda L: (named.update(stays=L["remaining_row_idx"]), [])[1] + [("range", And(0 <= L["i"], L["i"] <= nb)), ("an equation, if there is one, stays", stays(L["remaining_row_idx"], nb))] + gone(c.at(L), L["remaining_row_idx"], L["i"]) + result(c.at(L), L["remaining_row_idx"]))
    named = dict(rhs=-1, lhs=-1)
    def side(up):
        def f(c2, a):
            named.update({x: local(c2, f"other_row_{x}_index") for x in ("rhs", "lhs")})
            row, v, j, k, fac = a[0], a[1], local(c2, "remaining_row_idx"), a[5], a[6]; N = Cons(c2, cons); sc = lambda v: scaled(D, D, j, v); own, oinf = (D.rhs[j], has(D.rt[j], RHSI)) if up else (D.lhs[j], has(D.rt[j], LHSI)); w = sc(k); le = (lambda x, y: x <= y) if up else (lambda x, y: x >= y); nm = "right" if up else "left"
            at = lambda f_, p: And(c2.get(row, f_).one()[1] is p.one()[1], c2.get(row, f_).one()[2] == simp(p.one()[2] + j)); s0 = D.A.start[j]
            view = And(c2.get(row, "i") == j, at("lhs", D.plhs), at("rhs", D.prhs), at("tag", D.prt), *[And(c2.get(row, f_).one()[1] is p.ptr.one()[1], c2.get(row, f_).one()[2] == p.off + s0) for f_, p in (("vals", D.A.x), ("cols", D.A.i))], c2.get(c2.get(row, "len")) == D.A.end[j] - s0)
            return [(f"{nm} side: the row that stays is changed", view), (f"{nm} side: the new side and the factor are those of a removed row", And(b[inv[k]] == k, 0 <= inv[k], inv[k] < nb, k != j, w[0 if up else 2], v == w[1 if up else 3], fac == w[4])), (f"{nm} side: tightened only", Or(oinf, And(le(v, own), v != own)))]
        return f
    c.before("change_rhs_of_ineq", side(True)); c.before("change_lhs_of_ineq", side(False))
    yield
    j = named.get("stays", c.eng.fresh("remaining", I))
    if c.bmc:          # no loop head is visited: the row of the group that is still active
        j = b[0]
        for t in range(1, c.eng.unroll): j = If(And(t < nb, Not(has(Cons(c, cons).rt[b[t]], RIN))), b[t], j)
    if c.mode == "call": c.gset("conflict", Or(c.gget("conflict"), rc(c) == INFEAS))
    c.ensures("unchanged or infeasible", Or(rc(c) == UNCH, rc(c) == INFEAS)); c.ensures("lists well formed", And(Tape(c, D.info).wf(), Tape(c, D.info).n >= T0.n, Tape(c, D.info).end >= T0.end, R0.now().wf(), R0.now().n >= R0.n, E0.now().wf(), E0.now().n >= E0.n))
    c.ensures("one row of the group stays, an equation if there is one", Implies(rc(c) == UNCH, stays(j, nb))); ok = And(rc(c) == UNCH, stays(j, nb))
    for nm, f in gone(c, j, nb) + result(c, j): c.ensures(nm, Implies(ok, f))
    if c.mode == "verify": c.ensures("infeasible only when a row conflicts with the equation or two sides cross", Implies(And(rc(c) == INFEAS, stays(j, nb)), Or(And(iseq(j), c.exists(0, nb, lambda t: And(b[t] != j, conflict(j, b[t])))), And(Not(iseq(j)), cross(j)))))
    inb = lambda r: And(0 <= inv[r], inv[r] < nb, b[inv[r]] == r); N = Cons(c, cons)
    c.ensures("rows of other groups are untouched", c.every(D.rt, 0, UP, lambda r, _: TRUE) if False else others(c, lambda r: Implies(Not(inb(r)), And(eqt(N.rt[r], D.rt[r]), N.lhs[r] == D.lhs[r], N.rhs[r] == D.rhs[r]))))
# ------------------------------------------------------------------ all groups
def groups(c, G, rows, inv):
    """the groups returned by find_parallel_rows: contiguous, at least two rows each, no row twice"""
    n = G.n; R_ = c.arr(rows)
    return And(G.wf(), n >= 1, n < 2**31, G.a[0] == 0, c.forall(0, n - 1, lambda h: And(0 <= G.a[h], G.a[h] + 2 <= G.a[h + 1], G.a[h + 1] <= G.a[n - 1], G.a[n - 1] < 2**31)), c.every(R_, 0, G.a[n - 1], lambda p, v: inv[v] == p))
def active(N, D, v): return And(v >= 0, D.A.start[v] < D.A.end[v], D.A.x[D.A.start[v]] != 0, Not(has(N.rt[v], RIN)), Implies(has(N.rt[v], EQ), And(N.lhs[v] == N.rhs[v], Not(has(N.rt[v], RHSI)), Not(has(N.rt[v], LHSI)))))
@contract(FILE, "process_all_bins", ["C18", "C19"], key="process_all_bins/rows", callable=False, opaque={"process_single_bin": "process_single_bin/rows"}, bmc=(2,))
def _(c):
    cons, rows, groups_ = c.args; D = Cons(c, cons).mtx(); G = Lst(c, groups_); R_ = c.arr(rows); ro = rows.one()[2]; T0 = Tape(c, D.info); R0, E0 = D.lst("rows_to_delete"), D.lst("dton_rows"); M = Rng(c, D.pA)
    inv = c.ghost("inverse", IA); c.requires(groups(c, G, rows, inv), "groups of rows"); tot = G.a[G.n - 1]
    par = lambda g, q: Implies(And(0 <= g, g < G.n - 1, G.a[g] <= q, q < G.a[g + 1]), M.parallel(c, R_[G.a[g + 1] - 1], R_[q]))
    if c.bmc: c.requires(c.forall(0, G.n - 1, lambda g: c.forall(G.a[g], G.a[g + 1], lambda q: par(g, q))), "the rows of a group are parallel")
    else: g_, q_ = z3.Ints("g?par q?par"); c.requires(z3.ForAll([g_, q_], par(g_, q_)), "the rows of a group are parallel")
    if c.mode == "verify": c.requires(Not(c.gget("conflict")))
    for x in (T0, R0, E0): c.requires(x.wf(), "lists well formed")
    c.requires(c.every(R_, 0, tot, lambda p, v: active(D, D, v)), "active rows, not empty")
    for f in ("up", "down"): c.modifies(c.get(D.st, "col_locks"), f, lo=0, hi=None)
    c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); c.modifies(D.prt, lo=0, hi=None); T0.grows(); R0.grows(); E0.grows()
    c.at_call("process_single_bin/rows", lambda L, a: dict(inverse=Shift(inv, simp(ro - a[1].one()[2])), entry=z3.IntVal(0)))
    def wfs(c2): T, R1, E1 = Tape(c2, D.info), R0.now(c2), E0.now(c2); return And(T.wf(), T.n >= T0.n, T.end >= T0.end, R1.wf(), R1.n >= R0.n, E1.wf(), E1.n >= E0.n)
    def kept(c2, r): N = Cons(c2, cons); return And(eqt(N.rt[r], D.rt[r]), N.lhs[r] == D.lhs[r], N.rhs[r] == D.rhs[r])
    c.before("process_single_bin", lambda c2, a: [("the next group, all of it", And(a[1].one()[1] is rows.one()[1], a[1].one()[2] == ro + G.a[local(c2, "i")], a[2] == G.a[local(c2, "i") + 1] - G.a[local(c2, "i")])), ("its rows are parallel", c.forall(0, a[2], lambda t: M.parallel(c, c2.arr(a[1])[a[2] - 1], c2.arr(a[1])[t])))])
    c.loop(0, lambda L: [("range", And(0 <= L["i"], L["i"] <= G.n - 1)), ("no conflict so far", Not(c.at(L).gget("conflict"))), ("lists well formed", wfs(c.at(L))), ("rows of the groups to come are untouched", c.every(R_, G.a[L["i"]], tot, lambda p, v: kept(c.at(L), v))), ("rows in no group are untouched", others(c, lambda r: Implies(Not(And(0 <= inv[r], inv[r] < tot, R_[inv[r]] == r)), kept(c.at(L), r))))])
    yield
    if c.mode == "call": c.gset("processed", TRUE); c.gset("conflict", rc(c) == INFEAS)
    c.ensures("unchanged or infeasible", Or(rc(c) == UNCH, rc(c) == INFEAS)); c.ensures("the verdict of a group is returned", (rc(c) == INFEAS) == c.gget("conflict") if c.mode == "verify" else TRUE); c.ensures("lists well formed", wfs(c)); c.ensures("rows in no group are untouched", others(c, lambda r: Implies(Not(And(0 <= inv[r], inv[r] < tot, R_[inv[r]] == r)), kept(c, r))))
def left_inverse(c2, a, n, what):
    """a list without repetitions has a left inverse: the distinctness is proved, the inverse is then assumed to exist"""
    e = c2.eng; e.oblige(c2.st, pairs(c2, a, 0, n, lambda u, v, y: u != v), f"{c2.con.name}: {what}", "post"); g = e.fresh("inverse", IA); e.assume(c2.st, c2.every(a, 0, n, lambda p, v: g[v] == p)); return g
WORK = ("iwork1_max_nrows_ncols", "iwork2_max_nrows_ncols")
def work(c, D, own):
    W = c.get(D.st, "work"); pv = c.get(W, "int_vec"); O = Lst(c, pv); c.requires(O.wf(), "lists well formed"); rows = c.get(W, own)
    for f in WORK + (own,): c.modifies(c.get(W, f), lo=0, hi=None)
    c.modifies(pv, "len"); c.modifies(pv, "capacity"); c.modifies(O.d, lo=0, hi=None)
    if c.bmc: c.modifies_ptr(pv, "data")
    return rows, pv
@contract(FILE, "remove_parallel_rows", ["C18", "C19", "C20"], opaque={"delete_inactive_rows": "delete_inactive_rows/frame", "find_parallel_rows": "find_parallel_rows", "process_all_bins": "process_all_bins/rows"}, bmc=(2,))
def _(c):
    cons, = c.args; D = Cons(c, cons).mtx(); T0 = Tape(c, D.info); Ls = {f: D.lst(f) for f in ALL8}; M = Rng(c, D.pA)
    for x in (T0, *Ls.values()): c.requires(x.wf(), "lists well formed")
    rows, pv = work(c, D, "iwork_n_rows"); c.requires(And(0 <= D.A.m, D.A.m < 2**31 - 1)); c.requires(c.forall(0, D.A.m, lambda i: If(has(D.rt[i], RIN), D.A.start[i] == D.A.end[i], active(D, D, i))), "inactive rows are empty, the others are not")
    inner_frame(c, D); T0.grows(); c.modifies(D.prt, lo=0, hi=None); c.modifies(D.plhs, lo=0, hi=None); c.modifies(D.prhs, lo=0, hi=None); Ls["rows_to_delete"].grows()
    c.before("find_parallel_rows", lambda c2, a: [("rows are compared", And(a[0].one()[1] is D.pA.one()[1], a[1].one()[1] is D.prt.one()[1], a[1].one()[2] == D.prt.one()[2], to_int(a[6]) == RIN))]); c.at_call("find_parallel_rows", lambda L, a: {})
    c.before("process_all_bins", lambda c2, a: [("the groups found are processed", And(a[1].one()[1] is rows.one()[1], a[1].one()[2] == rows.one()[2], a[2].one()[1] is pv.one()[1]))])
    c.at_call("process_all_bins/rows", lambda L, a: (lambda c2: dict(inverse=left_inverse(c2, c2.arr(rows), Lst(c2, pv).a[Lst(c2, pv).n - 1], "no row is in two groups")))(c.at(L)))
    c.requires(Not(c.gget("processed"))); c.before("delete_inactive_rows", lambda c2, a: [("inactive rows are removed after the last group", c2.gget("processed"))])
    yield
    c.ensures("unchanged or infeasible", Or(rc(c) == UNCH, rc(c) == INFEAS)); c.ensures("the verdict of the groups is returned", (rc(c) == INFEAS) == c.gget("conflict")); c.ensures("lists well formed", And(Tape(c, D.info).wf(), *[x.now().wf() for x in Ls.values()]))
