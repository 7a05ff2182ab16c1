"""Deleting rows and columns from both copies of the matrix (C20, C22, C24, C13): surviving entries keep value and order, sizes, counts of opposing rows and entry counts follow."""
from spec import *
import z3
from matrix import Mtx
from locks import LHSI, RHSI, IA
from vec import wf
CIN, RIN = 48, 8
def lst(c, st, f):
    v = c.get(st, f); n, cap, d = wf(c, v); c.requires(And(0 <= n, n <= cap, cap >= 1), "list well formed"); return v, n, c.arr(d), d
def lst_(c, st, f): v = c.get(st, f); return v, c.get(v, "len")
def okl(c, L, v): n, cap, _ = wf(c.at(L), v); return And(0 <= n, n <= cap, cap >= 1)
def compacted(c, N, H, al, q, j, cut=None):
    """row q of N holds the surviving entries of row q of H in order (j: an arbitrary entry)"""
    kept = lambda lo, hi: c.count(lo, hi, lambda k: al(H.i[k]))
    e = H.end[q] if cut is None else cut; pos = H.start[q] + kept(H.start[q], j)
    return kept, And(N.start[q] == H.start[q], Implies(And(H.start[q] <= j, j < e, al(H.i[j])), And(pos < H.start[q] + kept(H.start[q], e), N.i[pos] == H.i[j], N.x[pos] == H.x[j])))
def lists_grow(c, vs):
    for v in vs:
        c.modifies(v, "len"); c.modifies(v, "capacity"); c.modifies(wf(c, v)[2], lo=0, hi=None)
        if c.bmc: c.modifies_ptr(v, "data")
def deletion(name, rows):
    @contract("Constraints.c", name, ["C20", "C22", "C24", "C13"] if rows else ["C20", "C24", "C13"], callable=False, bmc=(2,))
    def _(c):
        cons, = c.args; st = c.get(cons, "state"); pA, pT = c.get(cons, "A"), c.get(cons, "AT"); A, AT = Mtx(c, pA), Mtx(c, pT)
        S, T = (A, AT) if rows else (AT, A)          # S: the copy whose rows are deleted, T: the copy that is compacted
        pS, pTt = (pA, pT) if rows else (pT, pA)
        rsz, csz = c.get(st, "row_sizes"), c.get(st, "col_sizes"); rs, cs = c.arr(rsz), c.arr(csz)
        sz, oz, psz, poz = (rs, cs, rsz, csz) if rows else (cs, rs, csz, rsz)          # sizes of the deleted kind, of the other kind
        rt, ct = c.arr(c.get(cons, "row_tags")), c.arr(c.get(cons, "col_tags")); lk = c.arr(c.get(st, "col_locks")); plk = c.get(st, "col_locks")
        otag, oin = (ct, CIN) if rows else (rt, RIN)
        for M in (A, AT): c.requires(M.layout(), "rows do not overlap")
        names = ("rows_to_delete",) if rows else ("fixed_cols_to_delete", "sub_cols_to_delete")
        ls = [lst(c, st, f) for f in names]; outs = [lst(c, st, f)[0] for f in (("empty_cols", "ston_cols") if rows else ("empty_rows", "ston_rows", "dton_rows"))]
        q, j = c.any("line", "entry"); c.requires(And(0 <= q, q < T.m, oz[q] != -1, T.start[q] <= j, j < T.end[q], T.nnz >= 0))
        c.requires(c.forall(T.start[q], T.end[q], lambda t: And(0 <= T.i[t], T.i[t] < S.m)), "indices in range")
        inv = c.ghost("inverse", IA); which = c.ghost("list", IA)
        for k, (v, n, d, _) in enumerate(ls):
            c.requires(c.forall(0, n, lambda i: And(inv[d[i]] == i, which[d[i]] == k, sz[d[i]] >= 0, sz[d[i]] == S.len(d[i]), 0 <= d[i], d[i] < S.m)), "lines to delete occur once and are active")
        def listed(r, k, hi): return And(which[r] == k, 0 <= inv[r], inv[r] < hi, ls[k][2][inv[r]] == r)
        gone = lambda r, ends: Or([listed(r, k, h) for k, h in enumerate(ends)])
        full = [n for _, n, _, _ in ls]; z = lambda ends: list(ends) + [z3.IntVal(0)] * (len(ls) - len(ends))
        cnt = lambda k, i, hi=None: c.count(S.start[ls[k][2][i]], S.end[ls[k][2][i]] if hi is None else hi, lambda t: S.i[t] == q)
        SUM = lambda k, hi: c.sum(0, hi, lambda i: cnt(k, i), "isum")
        tot = lambda k: sum([SUM(b, full[b]) for b in range(k)], z3.IntVal(0))
        for k, (v, n, d, _) in enumerate(ls):          # sizes are at least the entries deleted: follows from agreement of the copies
            c.requires(c.forall(0, n, lambda i: c.forall(S.start[d[i]], S.end[d[i]] + 1, lambda t: tot(k) + SUM(k, i) + cnt(k, i, t) <= oz[q])), "sizes cover the deleted entries")
        al = lambda r: And(sz[r] != -1, Not(gone(r, full)))
        keptH = lambda lo, hi: c.count(lo, hi, lambda t: al(T.i[t]))
        c.requires(oz[q] - tot(len(ls)) == keptH(T.start[q], T.end[q]), "both copies agree on the surviving entries of the line")
        total = lambda k, hi: c.sum(0, hi, lambda i: S.len(ls[k][2][i]), "isum")
        # frame
        c.modifies(psz, lo=0, hi=None); c.modifies(poz, lo=0, hi=None); c.modifies(c.get(pS, "p"), "end", lo=0, hi=None); c.modifies(c.get(pTt, "p"), "end", lo=0, hi=None)
        c.modifies(T.pi, lo=0, hi=None); c.modifies(T.px, lo=0, hi=None); c.modifies(pA, "nnz"); c.modifies(pT, "nnz")
        if rows: c.modifies(plk, lo=0, hi=None)
        lists_grow(c, outs)
        for v, _, _, _ in ls: c.modifies(v, "len")
        c.hint(q)
        LU = lambda k, i, x, hi=None: None
        if rows:
            d = ls[0][2]
            npos = lambda i, hi=None: c.count(S.start[d[i]], S.end[d[i]] if hi is None else hi, lambda t: And(S.i[t] == q, S.x[t] > 0)); nneg = lambda i, hi=None: c.count(S.start[d[i]], S.end[d[i]] if hi is None else hi, lambda t: And(S.i[t] == q, S.x[t] <= 0))
            hr, hl = lambda i: Not(has(rt[d[i]], RHSI)), lambda i: Not(has(rt[d[i]], LHSI))
            ups = lambda i, hi=None: If(hr(i), npos(i, hi), 0) + If(hl(i), nneg(i, hi), 0); dns = lambda i, hi=None: If(hl(i), npos(i, hi), 0) + If(hr(i), nneg(i, hi), 0)
            UP = lambda hi: c.sum(0, hi, lambda i: ups(i), "isum"); DN = lambda hi: c.sum(0, hi, lambda i: dns(i), "isum")
        def lists(k, L, t=None):
            i = L["i"]; d_ = c.at(L); e = full[:k] + [i]; e += [z3.IntVal(0)] * (len(ls) - len(e)); s2, o2 = d_.arr(psz), d_.arr(poz); N = Mtx(d_, pS); dl = ls[k][2]
            cur = gone; ee = list(e)
            if t is not None: ee[k] = i + 1
            f = [("sizes of deleted lines", c.forall(0, S.m, lambda r: s2[r] == If(gone(r, ee), -1, sz[r]))),
                 ("size of the line", o2[q] == oz[q] - tot(k) - SUM(k, i) - (cnt(k, i, t) if t is not None else 0)),
                 ("ranges", c.forall(0, S.m + 1, lambda r: And(N.start[r] == S.start[r], N.end[r] == If(And(gone(r, e)), S.start[r], S.end[r]))))]
            if rows:
                l2 = d_.arr(plk); u, w = UP(i), DN(i)
                if t is not None: u, w = u + ups(i, t), w + dns(i, t)
                f += [("opposing counts of the line", And(l2.up[q] == lk.up[q] - u, l2.down[q] == lk.down[q] - w)), ("number of entries", d_.get(pA, "nnz") == A.nnz - total(0, i) - (S.len(dl[i]) if t is not None else 0))]
            return f
        lno = 0
        for k in range(len(ls)):
            c.loop(lno, lambda L, k=k: lists(k, L)); c.loop(lno + 1, lambda L, k=k: lists(k, L, L["j"])); lno += 2
        ovs = {f: lst_(c, st, f) for f in (("empty_cols", "ston_cols") if rows else ("empty_rows", "ston_rows", "dton_rows"))}; cases = list(enumerate(ovs))
        oz1 = oz[q] - tot(len(ls)); skip = Or(has(otag[q], oin), oz1 == T.len(q)); li = "col" if rows else "row"
        def fin_state(N, at=None, shift=None):
            """line q after compaction"""
            kept, f = compacted(c, N, T, al, q, j); return And(N.end[q] == T.start[q] + kept(T.start[q], T.end[q]), f)
        def same(N, r): return And(N.start[r] == T.start[r], N.end[r] == T.end[r])
        def listing(d_, i, o2):
            """lines that have become empty, singletons (doubletons) are put on their list, nothing else is"""
            f = []
            for k, nm in cases:
                v, n0 = ovs[nm]; n1 = d_.get(v, "len"); a = d_.arr(d_.get(v, "data")); extra = Not(has(otag[q], 4)) if nm == "dton_rows" else z3.BoolVal(False)
                f.append((f"line listed in {nm}", Implies(And(i > q, Not(skip), oz1 == k, Not(extra)), d_.exists(n0, n1, lambda t: a[t] == q))))
                f.append((f"only such lines listed in {nm}", And(n1 >= n0, d_.forall(n0, n1, lambda t: o2[a[t]] == k))))
            return f
        def lines(L):
            i = L[li]; d_ = c.at(L); N = Mtx(d_, pTt); s2, o2 = d_.arr(psz), d_.arr(poz)
            f = [("lists well formed", And([okl(c, L, v) for v in outs])), ("line range", And(0 <= i)), ("starts", c.forall(0, T.m + 1, lambda r: N.start[r] == T.start[r])), ("ends to come", c.forall(i, T.m + 1, lambda r: N.end[r] == T.end[r])),
                 ("line done or untouched", If(i > q, If(skip, And(same(N, q), N.i[j] == T.i[j], N.x[j] == T.x[j]), fin_state(N)), And(c.forall(T.start[q], T.end[q], lambda t: And(N.i[t] == T.i[t], N.x[t] == T.x[t])))))]
            return f + listing(d_, i, o2)
        def pack(L):
            i, t, sh = L[li], L["j"], L["shift"]; d_ = c.at(L); N = Mtx(d_, pTt)
            kept, fs = compacted(c, N, T, al, q, j, cut=t)
            mes = [sh == t - T.start[q] - kept(T.start[q], t), fs, c.forall(t, T.end[q], lambda u: And(N.i[u] == T.i[u], N.x[u] == T.x[u]))]
            other = If(i > q, If(skip, And(same(N, q), N.i[j] == T.i[j], N.x[j] == T.x[j]), fin_state(N)), c.forall(T.start[q], T.end[q], lambda t: And(N.i[t] == T.i[t], N.x[t] == T.x[t])))
            return [("shift", And(0 <= sh, sh <= t - T.start[i])), ("write place", And(T.start[i] <= t - sh, t - sh <= t, T.start[i] <= t, N.start[i] == T.start[i]))] + [(f"the line being compacted {n}", Implies(i == q, f)) for n, f in enumerate(mes)] + [("the line when another is compacted", Implies(i != q, other))]
        c.loop(lno, lines); c.loop(lno + 1, pack)
        yield
        N = Mtx(c, pTt); s2, o2 = c.arr(psz), c.arr(poz)
        guard = Not(ls[0][1] == 0) if rows else z3.BoolVal(True)
        c.ensures("deleted lines are marked", Implies(guard, c.forall(0, S.m, lambda r: s2[r] == If(gone(r, full), -1, sz[r]))))
        c.ensures("size of every surviving line", Implies(guard, o2[q] == oz1))
        c.ensures("surviving lines keep their surviving entries in order", Implies(And(guard, Not(has(otag[q], oin)), oz1 != T.len(q)), fin_state(N)))
        c.ensures("unaffected lines are unchanged", Implies(And(guard, skip), And(same(N, q), N.i[j] == T.i[j], N.x[j] == T.x[j])))
        for nm, f in listing(c, q + 1, o2): c.ensures(nm, Implies(guard, f))
        if rows:
            l2 = c.arr(plk); c.ensures("opposing counts lose the deleted rows", Implies(guard, And(l2.up[q] == lk.up[q] - UP(full[0]), l2.down[q] == lk.down[q] - DN(full[0])))); c.ensures("number of entries", Implies(guard, c.get(pA, "nnz") == A.nnz - total(0, full[0])))
        c.ensures("both copies count the same entries", Implies(guard, c.get(pA, "nnz") == c.get(pT, "nnz")))
        for v, _, _, _ in ls: c.ensures("list emptied", c.get(v, "len") == 0)
deletion("delete_inactive_rows", True); deletion("delete_inactive_cols_from_A_and_AT", False)
