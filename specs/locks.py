"""Counts of opposing rows (C22, C17, C06): up = rows that could be violated by increasing the variable, down = by decreasing it."""
from spec import *
import z3
LHSI, RHSI, INA = 1, 2, 8
def oneif(b): return If(b, 1, 0)
def d_up(x, t): return oneif(If(x > 0, Not(has(t, RHSI)), Not(has(t, LHSI))))
def d_down(x, t): return oneif(If(x > 0, Not(has(t, LHSI)), Not(has(t, RHSI))))
IA = z3.ArraySort(I, I)
def eq_ineq(name, sign, flag):
    @contract("Locks.c", name, ["C22", "C17"])
    def _(c):
        locks, vals, cols, n, side = c.args; v, k = c.arr(vals), c.arr(cols); inv = c.ghost("inverse", IA); old = c.arr(locks)
        c.requires(c.forall(0, n, lambda i: And(inv[k[i]] == i, v[i] != 0)), "columns occur once, coefficients nonzero")
        c.modifies(locks, lo=0, hi=None)
        # to_upper drops the left side, new_constraint_lhs adds it: both concern the left side when the flag is set
        up = lambda i: oneif(If(side, v[i] < 0, v[i] > 0)) * sign
        dn = lambda i: oneif(If(side, v[i] > 0, v[i] < 0)) * sign
        def state(a, hi):
            q = z3.Int("q?"); inr = And(0 <= inv[q], inv[q] < hi, k[inv[q]] == q)
            if c.bmc: q = z3.Int("q?any"); inr = And(0 <= inv[q], inv[q] < hi, k[inv[q]] == q); return And(a.up[q] == old.up[q] + If(inr, up(inv[q]), 0), a.down[q] == old.down[q] + If(inr, dn(inv[q]), 0))
            return And(z3.ForAll([q], a.up[q] == old.up[q] + If(inr, up(inv[q]), 0)), z3.ForAll([q], a.down[q] == old.down[q] + If(inr, dn(inv[q]), 0)))
        for l in (0, 1): c.loop(l, lambda L: [("processed entries", state(c.at(L).arr(locks), L["i"]))])
        yield
        c.ensures("exactly the opposing counts of the changed side move", state(c.arr(locks), pos(n)))
from activity import pos
eq_ineq("update_locks_eq_to_ineq", -1, "to_upper"); eq_ineq("update_locks_ineq_to_eq", 1, "lhs")
def row_ranges(c, A):
    m, p = c.get(A, "m"), c.arr(c.get(A, "p"))
    return m, p, c.arr(c.get(A, "i")), c.arr(c.get(A, "x"))
@contract("Locks.c", "new_locks", ["C22", "C17"], callable=False)
def _(c):
    A, tags = c.args; m, p, k, x = row_ranges(c, A); t = c.arr(tags); q = c.ghost("column")
    c.requires(m >= 0)
    def inner(i, d): return lambda j: And(k[j] == q, d(x[j], t[i]) == 1)
    def rowcnt(i, d, hi=None):          # occurrences of column q in row i that oppose
        return c.sum(p.start[i], p.end[i] if hi is None else hi, lambda j: oneif(And(k[j] == q, If(x[j] > 0, d(z3.RealVal(1), t[i]) == 1, d(z3.RealVal(-1), t[i]) == 1))), "count")
    # one count per (sign, side): summands must not mention the row, so split by coefficient sign
    npos = lambda i, hi=None: c.count(p.start[i], p.end[i] if hi is None else hi, lambda j: And(k[j] == q, x[j] > 0))
    nneg = lambda i, hi=None: c.count(p.start[i], p.end[i] if hi is None else hi, lambda j: And(k[j] == q, x[j] <= 0))
    R_, L_ = lambda i: oneif(Not(has(t[i], RHSI))), lambda i: oneif(Not(has(t[i], LHSI)))
    ups = lambda i, hi=None: If(Not(has(t[i], RHSI)), npos(i, hi), 0) + If(Not(has(t[i], LHSI)), nneg(i, hi), 0)
    dns = lambda i, hi=None: If(Not(has(t[i], LHSI)), npos(i, hi), 0) + If(Not(has(t[i], RHSI)), nneg(i, hi), 0)
    UP = lambda hi: c.sum(0, hi, lambda i: ups(i), "isum"); DN = lambda hi: c.sum(0, hi, lambda i: dns(i), "isum")
    c.requires(c.forall(0, m, lambda i: p.start[i] <= p.end[i]))
    c.loop(0, lambda L: [("up", c.at(L).arr(L["locks"]).up[q] == UP(L["i"])), ("down", c.at(L).arr(L["locks"]).down[q] == DN(L["i"]))])
    c.loop(1, lambda L: [("up", c.at(L).arr(L["locks"]).up[q] == UP(L["i"]) + ups(L["i"], L["j"])), ("down", c.at(L).arr(L["locks"]).down[q] == DN(L["i"]) + dns(L["i"], L["j"]))])
    yield
    a = c.arr(c.result)
    c.ensures("counts of every column are exact", And(a.up[q] == UP(m), a.down[q] == DN(m)))
@contract("Locks.c", "count_locks_one_column", ["C22"])
def _(c):
    col, lock, tags = c.args; t = c.arr(tags); v, r, n = c.arr(c.get(col, "vals")), c.arr(c.get(col, "cols")), c.get(c.get(col, "len"))
    c.modifies(lock)
    up = lambda hi: c.count(0, hi, lambda i: d_up(v[i], t[r[i]]) == 1); dn = lambda hi: c.count(0, hi, lambda i: d_down(v[i], t[r[i]]) == 1)
    c.loop(0, lambda L: [("up", c.at(L).get(lock, "up") == up(L["i"])), ("down", c.at(L).get(lock, "down") == dn(L["i"]))])
    yield
    c.ensures("counts are exact", And(c.get(lock, "up") == up(pos(n)), c.get(lock, "down") == dn(pos(n))))
