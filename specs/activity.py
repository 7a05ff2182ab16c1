"""Row activities (C21, C14, C05): counts of unbounded contributions are exact, finite activities are the sums of the finite contributions."""
from spec import *
import z3
LBI, UBI, INACT = 1, 4, 48
def cmax(x, lb, ub): return If(x > 0, x * ub, x * lb)
def cmin(x, lb, ub): return If(x > 0, x * lb, x * ub)
def imax(x, t): return If(x > 0, has(t, UBI), has(t, LBI))
def imin(x, t): return If(x > 0, has(t, LBI), has(t, UBI))
class Row:
    """spec functions of one row: v coefficients, k column indices, t column tags, lb/ub bounds (functions of an index)"""
    def __init__(s, c, v, k, t=None, lb=None, ub=None):
        s.c, s.v, s.k, s.t, s.lb, s.ub = c, v, k, t, lb, ub; s.o = 0
        if isinstance(v, Arr) and isinstance(k, Arr) and len(v.parts()) == 1 and v.off.eq(k.off):     # a row inside the matrix: sums run over absolute positions
            s.o = v.off; s.v, s.k = F(v.parts()[0][1]), F(k.parts()[0][1])
    def nmax(s, lo, hi): return s.c.count(s.o + lo, s.o + hi, lambda j: imax(s.v[j], s.t[s.k[j]]))
    def nmin(s, lo, hi): return s.c.count(s.o + lo, s.o + hi, lambda j: imin(s.v[j], s.t[s.k[j]]))
    def smax(s, lo, hi, skip=None): return s.c.sum(s.o + lo, s.o + hi, lambda j: s.sk(j, skip, cmax(s.v[j], s.lb[s.k[j]], s.ub[s.k[j]])))
    def smin(s, lo, hi, skip=None): return s.c.sum(s.o + lo, s.o + hi, lambda j: s.sk(j, skip, cmin(s.v[j], s.lb[s.k[j]], s.ub[s.k[j]])))
    def sk(s, j, skip, e): return e if skip is None else If(s.k[j] == skip, 0, e)
    def tmax(s, lo, hi): return s.c.sum(s.o + lo, s.o + hi, lambda j: If(imax(s.v[j], s.t[s.k[j]]), 0, cmax(s.v[j], s.lb[s.k[j]], s.ub[s.k[j]])))
    def tmin(s, lo, hi): return s.c.sum(s.o + lo, s.o + hi, lambda j: If(imin(s.v[j], s.t[s.k[j]]), 0, cmin(s.v[j], s.lb[s.k[j]], s.ub[s.k[j]])))
    def ok(s, nmin, nmax, mn, mx, lo, hi):
        return And(nmax == s.nmax(lo, hi), nmin == s.nmin(lo, hi), Implies(nmax == 0, mx == s.smax(lo, hi)), Implies(nmin == 0, mn == s.smin(lo, hi)))
def pos(n): return If(n > 0, n, 0)
class F:
    """a z3 array as an indexable"""
    def __init__(s, a, off=0): s.a, s.off = a, off
    def __getitem__(s, i): return z3.Select(s.a, simp(i + s.off))
@contract("Activity.c", "recompute_n_infs", ["C21"])
def _(c):
    act, vals, cols, n, tags = c.args
    v, k, t = c.arr(vals), c.arr(cols), c.arr(tags)
    nmax = lambda hi: c.count(0, hi, lambda j: And(Not(has(t[k[j]], INACT)), imax(v[j], t[k[j]])))
    nmin = lambda hi: c.count(0, hi, lambda j: And(Not(has(t[k[j]], INACT)), imin(v[j], t[k[j]])))
    c.modifies(act, "n_inf_max"); c.modifies(act, "n_inf_min")
    c.loop(0, lambda L: [("maximum", L["n_inf_max"] == nmax(L["j"])), ("minimum", L["n_inf_min"] == nmin(L["j"]))])
    yield
    c.ensures("n_inf_max counts the unbounded contributions", c.get(act, "n_inf_max") == nmax(pos(n)))
    c.ensures("n_inf_min counts the unbounded contributions", c.get(act, "n_inf_min") == nmin(pos(n)))
@contract("Activity.c", "Activity_init", ["C21", "C14"])
def _(c):
    act, vals, cols, n, bounds, tags = c.args; b = c.arr(bounds); r = Row(c, c.arr(vals), c.arr(cols), c.arr(tags), b.lb, b.ub)
    c.modifies(act)
    g = lambda L, f: c.at(L).get(act, f)
    same = lambda L, *fs: And([g(L, f) == g(L.entry, f) for f in fs])
    c.loop(0, lambda L: [("maximum", g(L, "n_inf_max") == r.nmax(0, L["j"])), ("minimum", g(L, "n_inf_min") == r.nmin(0, L["j"]))])
    c.loop(1, lambda L: [("maximum", g(L, "max") == r.smax(0, L["j"]))])
    c.loop(2, lambda L: [("minimum", g(L, "min") == r.smin(0, L["j"]))])
    yield
    c.ensures("activity is exact", r.ok(c.get(act, "n_inf_min"), c.get(act, "n_inf_max"), c.get(act, "min"), c.get(act, "max"), 0, pos(n)))
    c.ensures("status reset", c.get(act, "status") == 0)
def compute(name, which, tags=False, skip=False):
    @contract("Activity.c", name, ["C21", "C14"])
    def _(c):
        vals, cols, n, bounds = c.args[:4]; b = c.arr(bounds); r = Row(c, c.arr(vals), c.arr(cols), c.arr(c.args[4]) if tags else None, b.lb, b.ub)
        S = lambda hi: (getattr(r, "t" + which)(0, hi) if tags else getattr(r, "s" + which)(0, hi, c.args[4] if skip else None))
        c.loop(0, lambda L: [("partial sum", L[which + "_act"] == S(L["j"]))])
        yield
        c.ensures("sum of the contributions", c.result == S(pos(n)))
for w in ("min", "max"):
    compute(f"compute_{w}_act_tags", w, tags=True); compute(f"compute_{w}_act_no_tags", w); compute(f"compute_{w}_act_one_tag", w, skip=True)
TAGS = z3.ArraySort(I, z3.BitVecSort(8))
@contract("Activity.c", "update_act_bound_change", ["C21", "C14", "C05"])
def _(c):
    act, coeff, old, new, finite, lower, vals, cols, n, bounds = c.args; b = c.arr(bounds); v, k = c.arr(vals), c.arr(cols)
    p = c.ghost("position"); t0 = c.ghost("tags", TAGS); c.hint(p); T0 = F(t0); col = k[p]
    T1 = F(z3.Store(t0, col, If(lower, T0[col] & z3.BitVecVal(255 - 1, 8), T0[col] & z3.BitVecVal(255 - 4, 8))))
    lb1, ub1 = b.lb, b.ub
    class old_of:
        def __init__(s, a, on): s.a, s.on = a, on
        def __getitem__(s, i): return If(And(s.on, i == col), old, s.a[i])
    lb0, ub0 = old_of(lb1, lower), old_of(ub1, Not(lower))
    c.requires(And(0 <= p, p < n, v[p] == coeff, coeff != 0), "the entry of the changed column")
    c.requires(c.forall(0, n, lambda j: Or(j == p, k[j] != col)), "column occurs once")
    c.requires(And(If(lower, b.lb[col], b.ub[col]) == new, finite == Not(has(T0[col], 1) if False else If(lower, has(T0[col], 1), has(T0[col], 4)))), "bound already changed")
    r0, r1 = Row(c, v, k, T0, lb0, ub0), Row(c, v, k, T1, lb1, ub1)
    get = lambda: [c.get(act, f) for f in ("n_inf_min", "n_inf_max", "min", "max")]
    c.requires(r0.ok(*get(), 0, n), "activity exact for the old bound")
    mn0, mx0 = c.get(act, "n_inf_min"), c.get(act, "n_inf_max")
    for f in ("n_inf_min", "n_inf_max", "min", "max"): c.modifies(act, f)
    yield
    up = If(lower, coeff > 0, coeff < 0)
    c.ensures("activity exact for the new bound", r1.ok(*get(), 0, n))
    c.ensures("says which side changed", c.result == If(up, z3.BitVecVal(4, 8), z3.BitVecVal(2, 8)))
@contract("Activity.c", "update_activity_coeff_change", ["C21", "C15", "C16"])
def _(c):
    act, lb, ub, old, new, tag = c.args
    g = {f: c.get(act, f) for f in ("n_inf_min", "n_inf_max", "min", "max")}
    for f in g: c.modifies(act, f)
    one = lambda b: If(b, 1, 0)
    dmax = lambda x: If(x == 0, 0, one(imax(x, tag))); dmin = lambda x: If(x == 0, 0, one(imin(x, tag)))
    c.requires(And(g["n_inf_max"] >= dmax(old), g["n_inf_min"] >= dmin(old)), "the old coefficient is counted")
    yield
    h = {f: c.get(act, f) for f in g}
    c.ensures("count of unbounded contributions to the maximum", h["n_inf_max"] == g["n_inf_max"] - dmax(old) + dmax(new))
    c.ensures("count of unbounded contributions to the minimum", h["n_inf_min"] == g["n_inf_min"] - dmin(old) + dmin(new))
    cm = lambda x: cmax(x, lb, ub); cn = lambda x: cmin(x, lb, ub)
    c.ensures("maximum moves by the difference of the contributions", Implies(And(g["n_inf_max"] == 0, h["n_inf_max"] == 0), h["max"] == g["max"] - cm(old) + cm(new)))
    c.ensures("minimum moves by the difference of the contributions", Implies(And(g["n_inf_min"] == 0, h["n_inf_min"] == 0), h["min"] == g["min"] - cn(old) + cn(new)))
    r = to_bv(c.result, 8)
    c.ensures("asks for recomputation exactly when an activity becomes finite", And((r & 4 != 0) == And(h["n_inf_min"] == 0, g["n_inf_min"] >= 1), (r & 2 != 0) == And(h["n_inf_max"] == 0, g["n_inf_max"] >= 1)))
IA = z3.ArraySort(I, I)
class Mat:
    """row-wise matrix"""
    def __init__(s, c, A):
        s.m, s.n = c.get(A, "m"), c.get(A, "n"); p = c.arr(c.get(A, "p")); s.start, s.end = p.start, p.end; s.i, s.x = c.arr(c.get(A, "i")), c.arr(c.get(A, "x")); s.c = c
def acts(c, a):
    v = c.arr(a); return v.n_inf_min, v.n_inf_max, v.min, v.max
class old_of:
    def __init__(s, a, col, v, on): s.a, s.col, s.v, s.on = a, col, v, on
    def __getitem__(s, i): return If(And(s.on, i == s.col), s.v, s.a[i])
def colmap(c, M, col, rows, vals, n, name="position"):
    """ghost link between the column view and the rows: inv[row] = index in the view, pp[row] = position of the entry in the row"""
    inv, pp = c.ghost("inverse", IA), c.ghost("position", IA); k, v = c.arr(rows), c.arr(vals)
    c.requires(c.forall(0, n, lambda j: And(inv[k[j]] == j, 0 <= k[j], k[j] < M.m, M.start[k[j]] <= pp[k[j]], pp[k[j]] < M.end[k[j]], M.i[pp[k[j]]] == col, M.x[pp[k[j]]] == v[j], v[j] != 0)), "column view and rows agree")
    inside = lambda i, hi: And(0 <= inv[i], inv[i] < hi, k[inv[i]] == i)
    c.requires(c.forall(0, M.m, lambda i: And(M.start[i] <= M.end[i], c.forall(M.start[i], M.end[i], lambda j: Implies(M.i[j] == col, And(inside(i, n), j == pp[i]))))), "rows and column view agree")
    return inv, pp, k, v, inside
@contract("Activity.c", "update_activities_bound_change", ["C21", "C14", "C05"])
def _(c):
    a, A, bounds, vals, rows, n, old, new, finite, lower, upd = c.args; M = Mat(c, A); b = c.arr(bounds)
    col = c.ghost("column"); t0 = c.ghost("tags", TAGS); inv, pp, k, v, inside = colmap(c, M, col, rows, vals, n); T0 = F(t0)
    clear = lambda t: If(lower, t & z3.BitVecVal(254, 8), t & z3.BitVecVal(251, 8)); T1 = F(z3.Store(t0, col, clear(T0[col])))
    c.requires(And(If(lower, b.lb[col], b.ub[col]) == new, (finite != 0) == Not(If(lower, has(T0[col], 1), has(T0[col], 4)))), "bound already changed")
    r0, r1 = Row(c, M.x, M.i, T0, old_of(b.lb, col, old, lower), old_of(b.ub, col, old, Not(lower))), Row(c, M.x, M.i, T1, b.lb, b.ub)
    ok = lambda r, S, i: r.ok(S[0][i], S[1][i], S[2][i], S[3][i], M.start[i], M.end[i])
    S0 = acts(c, a); c.requires(c.forall(0, M.m, lambda i: ok(r0, S0, i)), "activities exact for the old bound")
    from vec import wf, Lst
    l, cap, data = wf(c, upd); c.requires(And(0 <= l, l <= cap, cap >= 1), "list well formed")
    for f in ("n_inf_min", "n_inf_max", "min", "max", "status"): c.modifies(a, f, lo=0, hi=None)
    U = Lst(c, upd); U.grows()
    def inv_(L):
        S = acts(c.at(L), a); ii = L["ii"]; l2, cap2, _ = wf(c.at(L), upd); 
        return [("rows done are exact for the new bound", c.forall(0, M.m, lambda i: Implies(inside(i, ii), ok(r1, S, i)))), ("other rows untouched", c.forall(0, M.m, lambda i: Implies(Not(inside(i, ii)), And(*[S[q][i] == S0[q][i] for q in range(4)])))), ("list well formed", And(0 <= l2, l2 <= cap2, cap2 >= 1, l2 >= l))]
    c.loop(0, inv_, use=lambda L: (c.inst(k[L["ii"]]), c.hint(pp[k[L["ii"]]]), [])[2])
    c.at_call("update_act_bound_change", lambda L, args: dict(position=pp[k[L["ii"]]] - M.start[k[L["ii"]]], tags=t0))
    yield
    S = acts(c, a); c.ensures("activities exact for the new bound", c.forall(0, M.m, lambda i: ok(r1, S, i))); c.ensures("list well formed", And(U.now().wf(), U.now().n >= U.n))

@contract("Activity.c", "update_activities_fixed_col", ["C21", "C14", "C13"], inline=("update_act_bound_change",))
def _(c):
    a, A, bounds, vals, rows, n, old_ub, old_lb, val, ubu, lbu, ubinf, lbinf, upd = c.args; M = Mat(c, A); b = c.arr(bounds)
    col = c.ghost("column"); t0 = c.ghost("tags", TAGS); inv, pp, k, v, inside = colmap(c, M, col, rows, vals, n); T0 = F(t0)
    T1 = F(z3.Store(t0, col, T0[col] & z3.BitVecVal(250, 8)))
    c.requires(And(b.lb[col] == val, b.ub[col] == val, ubinf == has(T0[col], UBI), lbinf == has(T0[col], LBI), ubu == Or(ubinf, val != old_ub), lbu == Or(lbinf, val != old_lb)), "both bounds already changed")
    r0, r1 = Row(c, M.x, M.i, T0, old_of(b.lb, col, old_lb, z3.BoolVal(True)), old_of(b.ub, col, old_ub, z3.BoolVal(True))), Row(c, M.x, M.i, T1, b.lb, b.ub)
    ok = lambda r, S, i: r.ok(S[0][i], S[1][i], S[2][i], S[3][i], M.start[i], M.end[i])
    S0 = acts(c, a); c.requires(c.forall(0, M.m, lambda i: ok(r0, S0, i)), "activities exact for the old bounds")
    from vec import wf, Lst
    l, cap, data = wf(c, upd); c.requires(And(0 <= l, l <= cap, cap >= 1), "list well formed")
    for f in ("n_inf_min", "n_inf_max", "min", "max", "status"): c.modifies(a, f, lo=0, hi=None)
    U = Lst(c, upd); U.grows()
    def inv_(L):
        S = acts(c.at(L), a); ii = L["ii"]; l2, cap2, _ = wf(c.at(L), upd)
        return [("rows done are exact for the new bounds", c.forall(0, M.m, lambda i: Implies(inside(i, ii), ok(r1, S, i)))), ("other rows untouched", c.forall(0, M.m, lambda i: Implies(Not(inside(i, ii)), And(*[S[q][i] == S0[q][i] for q in range(4)])))), ("list well formed", And(0 <= l2, l2 <= cap2, cap2 >= 1, l2 >= l))]
    c.loop(0, inv_, use=lambda L: (c.inst(k[L["ii"]]), c.hint(pp[k[L["ii"]]]), [])[2])
    yield
    S = acts(c, a); c.ensures("activities exact for the fixed column", c.forall(0, M.m, lambda i: ok(r1, S, i))); c.ensures("list well formed", And(U.now().wf(), U.now().n >= U.n))
def remove_finite(which, bit):
    @contract("Activity.c", f"remove_finite_{which}_from_activities", ["C21", "C16"])
    def _(c):
        col, a, bound = c.args; vals, rows, n = c.get(col, "vals"), c.get(col, "rows"), c.get(c.get(col, "len"))
        # the rows of the matrix are not an argument: they are ghost arrays
        K, X, ST, EN = c.ghost("cols", IA), c.ghost("coeffs", z3.ArraySort(I, R)), c.ghost("start", IA), c.ghost("end", IA); m = c.ghost("m"); q = c.ghost("column"); t0 = c.ghost("tags", TAGS); lb0, ub0 = c.ghost("lb", z3.ArraySort(I, R)), c.ghost("ub", z3.ArraySort(I, R))
        class M: pass
        M = M(); M.m, M.i, M.x, M.start, M.end = m, F(K), F(X), F(ST), F(EN)
        inv, pp, k, v, inside = colmap(c, M, q, rows, vals, n); T0 = F(t0); T1 = F(z3.Store(t0, q, T0[q] | z3.BitVecVal(bit, 8)))
        c.requires(And(Not(has(T0[q], bit)), (lb0 if bit == LBI else ub0)[q] == bound), "the bound removed is finite")
        r0, r1 = Row(c, M.x, M.i, T0, F(lb0), F(ub0)), Row(c, M.x, M.i, T1, F(lb0), F(ub0))
        ok = lambda r, S, i: r.ok(S[0][i], S[1][i], S[2][i], S[3][i], M.start[i], M.end[i])
        S0 = acts(c, a); c.requires(c.forall(0, m, lambda i: ok(r0, S0, i)), "activities exact with the bound")
        for f in ("n_inf_min", "n_inf_max", "min", "max"): c.modifies(a, f, lo=0, hi=None)
        def inv_(L):
            S = acts(c.at(L), a); ii = L["ii"]
            return [("rows done are exact without the bound", c.forall(0, m, lambda i: Implies(inside(i, ii), ok(r1, S, i)))), ("other rows untouched", c.forall(0, m, lambda i: Implies(Not(inside(i, ii)), And(*[S[z][i] == S0[z][i] for z in range(4)]))))]
        c.loop(0, inv_, use=lambda L: (c.inst(k[L["ii"]]), c.hint(pp[k[L["ii"]]]), [])[2])
        yield
        S = acts(c, a); c.ensures("activities exact without the bound", c.forall(0, m, lambda i: ok(r1, S, i)))
remove_finite("lb", LBI); remove_finite("ub", UBI)
def rowsums(c, A):
    return Mat(c, A)
def activities_of(name):
    @contract("Activity.c", name, ["C21"], callable=False, bmc=(1, 2))
    def _(c):
        if name == "new_activities": A, tags, bounds = c.args; rtags = a = None
        else:
            A, tags, rtags, bounds, a = c.args
            for f in ("n_inf_min", "n_inf_max", "min", "max", "status"): c.modifies(a, f, lo=0, hi=None)
        M = Mat(c, A); b = c.arr(bounds); r = Row(c, M.x, M.i, c.arr(tags), b.lb, b.ub); rt = c.arr(rtags) if rtags else None
        c.requires(And(M.m >= 0, c.forall(0, M.m, lambda i: M.start[i] <= M.end[i])), "row ranges")
        act = lambda i: z3.BoolVal(True) if rt is None else Not(has(rt[i], 8))
        P_ = lambda L: a if a is not None else L["activities"]
        full = lambda S, i: r.ok(S[0][i], S[1][i], S[2][i], S[3][i], M.start[i], M.end[i])
        def done(L): S = acts(c.at(L), P_(L)); return c.forall(0, L["i"], lambda i: Implies(act(i), full(S, i)))
        c.loop(0, lambda L: [("rows so far exact", done(L))], use=lambda L: (c.inst(L["i"]), [])[1])
        if name == "new_activities":
            def cell(L): S = acts(c.at(L), P_(L)); i = L["i"]; return [x[i] for x in S]
            base = lambda L: [("rows so far exact", done(L)), ("range", And(L["start"] == M.start[L["i"]], L["end"] == M.end[L["i"]]))]
            c.loop(1, lambda L: base(L) + [("counts", (lambda s, lo: And(s[0] == r.nmin(lo, L["j"]), s[1] == r.nmax(lo, L["j"]), s[2] == 0, s[3] == 0))(cell(L), L["start"]))])
            c.loop(2, lambda L: base(L) + [("maximum", (lambda s, lo: And(s[0] == r.nmin(lo, L["end"]), s[1] == r.nmax(lo, L["end"]), s[3] == r.smax(lo, L["j"]), s[2] == 0))(cell(L), L["start"]))])
            c.loop(3, lambda L: base(L) + [("minimum", (lambda s, lo: And(s[0] == r.nmin(lo, L["end"]), s[1] == r.nmax(lo, L["end"]), s[2] == r.smin(lo, L["j"]), Implies(s[1] == 0, s[3] == r.smax(lo, L["end"]))))(cell(L), L["start"]))])
        yield
        S = acts(c, a if a is not None else c.result); c.ensures("activities of all active rows are exact", c.forall(0, M.m, lambda i: Implies(act(i), full(S, i))))
activities_of("new_activities"); activities_of("Activities_init")
