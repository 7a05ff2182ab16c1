"""Compaction, tags, objective (C24, C01, C07, C11): data stays attached to its row or column."""
from spec import *
import z3
from matrix import Mtx
def compaction(c, mp, n):
    """map: -1 for removed, otherwise increasing new indices not above the old ones"""
    w = c.arr(mp); c.requires(n >= 0); c.valid(mp, n)
    c.requires(c.forall(0, n, lambda i: Or(w[i] == -1, And(0 <= w[i], w[i] <= i))), "map does not move data up")
    c.requires(c.forall(0, n, lambda i: c.forall(i + 1, n, lambda k: Or(w[i] == -1, w[k] == -1, w[i] < w[k]))), "map keeps the order")
    return w
def shrink(file, name, fields=None, mode=True):
    @contract(file, name, ["C24", "C07"], safe=True)
    def _(c):
        ptr, mp, n = c.args; w = compaction(c, mp, n); c.valid(ptr, n); old = c.arr(ptr); c.modifies(ptr, lo=0, hi=n); k = c.any("index")
        fs = [f for f, _ in c.eng.leaves(ptr.one()[1].elem)]
        get = lambda a, f: (getattr(a, f[0]) if f else a)
        def inv(L):
            a = c.at(L).arr(ptr); i = L["i"]
            return [("moved so far", And([c.forall(0, i, lambda q: Implies(w[q] != -1, get(a, f)[w[q]] == get(old, f)[q])) for f in fs])), ("to come", And([c.forall(i, n, lambda q: get(a, f)[q] == get(old, f)[q]) for f in fs]))]
        c.loop(0, inv)
        yield
        a = c.arr(ptr)
        c.ensures_any("every surviving element sits at its new index", [k], Implies(And(0 <= k, k < n, w[k] != -1), And([get(a, f)[w[k]] == get(old, f)[k] for f in fs])))
for f, nm in (("utils.c", "dPtr_shrink"), ("utils.c", "iPtr_shrink"), ("utils.c", "rowTagPtr_shrink"), ("utils.c", "colTagPtr_shrink"), ("Constraints.c", "bounds_shrink"), ("State.c", "shrink_locks"), ("State.c", "shrink_activities"), ("Problem.c", "objective_shrink")): shrink(f, nm)
@contract("utils.c", "shrink_idx_vector", ["C24"], safe=True)
def _(c):
    vec, mp = c.args; n, cap, data = c.get(vec, "len"), c.get(vec, "capacity"), c.get(vec, "data"); c.valid(vec, 1); d, w = c.arr(data), c.arr(mp)
    c.requires(And(0 <= n, n <= cap)); c.valid(data, n); N = c.rlen(mp)
    c.requires(c.forall(0, n, lambda i: And(0 <= d[i], d[i] < N)), "indices in range")
    kept = lambda hi: c.count(0, hi, lambda i: w[d[i]] != -1); k = c.any("index"); c.inst(k); c.hint(k)
    c.modifies(vec, "len"); c.modifies(data, lo=0, hi=n)
    def inv(L):
        a = c.at(L).arr(data); i, cu = L["i"], L["curr"]
        return [("kept so far", And(cu == kept(i), 0 <= cu, cu <= i)), ("to come", c.forall(i, n, lambda j: a[j] == d[j])), ("moved", Implies(And(0 <= k, k < i, w[d[k]] != -1), And(kept(k) >= 0, kept(k) < cu, a[kept(k)] == w[d[k]])))]
    c.loop(0, inv)
    yield
    a = c.arr(data)
    c.ensures("number of surviving indices", c.get(vec, "len") == kept(n))
    if c.mode != "call": c.ensures("surviving indices are renumbered in order", Implies(And(0 <= k, k < n, w[d[k]] != -1), a[kept(k)] == w[d[k]]))
@contract("utils.c", "get_max_abs", ["C26"], safe=True)
def _(c):
    v, n = c.args; a = c.arr(v); c.requires(n >= 0); c.valid(v, n)
    c.loop(0, lambda L: [("dominates so far", c.forall(0, L["i"], lambda j: absr(a[j]) <= L["max_abs"])), ("attained", And(L["max_abs"] >= 0, Or(L["max_abs"] == 0, c.exists(0, L["i"], lambda j: absr(a[j]) == L["max_abs"]))))])
    yield
    c.ensures("largest absolute value", And(c.forall(0, n, lambda j: absr(a[j]) <= c.result), Or(c.result == 0, c.exists(0, n, lambda j: absr(a[j]) == c.result))))
@contract("Tags.c", "new_rowtags", ["C07", "C24", "C18", "C11"], safe=True)
def _(c):
    lhs, rhs, n = c.args; l, r = c.arr(lhs), c.arr(rhs); c.requires(n >= 0); c.valid(lhs, n); c.valid(rhs, n)
    c.requires(c.forall(0, n, lambda i: And(l[i] <= INF, l[i] >= -INF, r[i] <= INF, r[i] >= -INF, Not(And(l[i] == INF, r[i] == INF)), l[i] < INF, r[i] > -INF)), "sides are numbers or the right infinity")
    c.modifies(lhs, lo=0, hi=n); c.modifies(rhs, lo=0, hi=n)
    bv = lambda k: z3.BitVecVal(k, 8)
    tag = lambda i: If(r[i] == INF, bv(2), bv(0)) | If(l[i] == -INF, bv(1), If(l[i] == r[i], bv(4), bv(0)))
    def inv(L):
        t = c.at(L).arr(L["row_tags"]); i = L["i"]; a, b = c.at(L).arr(lhs), c.at(L).arr(rhs)
        return [("tags so far", c.forall(0, i, lambda q: t[q] == tag(q))), ("rest clear", c.forall(i, n, lambda q: t[q] == 0)), ("sides kept", c.forall(0, n, lambda q: And(a[q] == l[q], b[q] == r[q])))]
    c.loop(0, inv)
    yield
    t = c.arr(c.result); a, b = c.arr(lhs), c.arr(rhs)
    c.ensures("tags describe the sides", c.forall(0, n, lambda q: t[q] == tag(q))); c.ensures("sides kept", c.forall(0, n, lambda q: And(a[q] == l[q], b[q] == r[q])))
@contract("Problem.c", "fix_var_in_obj", ["C01", "C13", "C17"])
def _(c):
    obj, col, val = c.args; o0 = c.get(obj, "offset"); cc = c.arr(c.get(obj, "c")); c.modifies(obj, "offset")
    yield
    c.ensures("offset takes the variable's cost", c.get(obj, "offset") == o0 + cc[col] * val)
@contract("Problem.c", "sub_var_in_obj", ["C01", "C16", "C02"])
def _(c):
    obj, vals, cols, n, k, aik, rhs = c.args; o0 = c.get(obj, "offset"); pc = c.get(obj, "c"); c0, v, q = c.arr(pc), c.arr(vals), c.arr(cols); j = c.any("entry"); x = c.any("other_column")
    c.requires(And(aik != 0, n >= 0)); c.requires(c.forall(0, n, lambda a: c.forall(a + 1, n, lambda b: q[a] != q[b])), "columns occur once")
    c.modifies(obj, "offset"); c.modifies(pc, lo=0, hi=None)
    tol = z3.RealVal("1/10000000000"); new = lambda a: (lambda y: If(absr(y) <= tol, 0, y))(c0[q[a]] - c0[k] / aik * v[a])
    other = c.forall(0, n, lambda a: q[a] != x)
    c.loop(0, lambda L: [("done", c.forall(0, L["i"], lambda a: c.at(L).arr(pc)[q[a]] == new(a))), ("to come", c.forall(L["i"], n, lambda a: c.at(L).arr(pc)[q[a]] == c0[q[a]])), ("other", Implies(other, c.at(L).arr(pc)[x] == c0[x]))])
    yield
    c1 = c.arr(pc)
    c.ensures("offset", c.get(obj, "offset") == If(c0[k] == 0, o0, o0 + rhs * c0[k] / aik))
    c.ensures_any("cost of every column of the row", [j], Implies(And(0 <= j, j < n), c1[q[j]] == If(c0[k] == 0, c0[q[j]], new(j))))
    c.ensures_any("other costs unchanged", [x], Implies(other, c1[x] == c0[x]))
