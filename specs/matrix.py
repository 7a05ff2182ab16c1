"""Row storage (C20, C24, C26, C27, C07): every row keeps exactly its entries while storage is built, moved, edited, squeezed or transposed."""
from spec import *
import z3
ROWX, RATIO = 4, 2
class Mtx:
    def __init__(s, c, A):
        s.A, s.c = A, c; s.m, s.n, s.nnz, s.alloc = (c.get(A, f) for f in ("m", "n", "nnz", "n_alloc"))
        s.pp, s.pi, s.px = c.get(A, "p"), c.get(A, "i"), c.get(A, "x"); p = c.arr(s.pp); s.start, s.end, s.i, s.x = p.start, p.end, c.arr(s.pi), c.arr(s.px)
    def len(s, r): return s.end[r] - s.start[r]
    def layout(s, c=None):
        c = c or s.c
        return And(s.m >= 0, s.start[0] >= 0, c.forall(0, s.m, lambda r: And(0 <= s.start[r], s.start[r] <= s.end[r])), s.start[s.m] == s.end[s.m],
                   c.forall(0, s.m, lambda r: c.forall(r + 1, s.m + 1, lambda q: s.end[r] <= s.start[q])))
    def room(s, c):
        c.valid(s.A, 1); c.valid(s.pp, s.m + 1); c.valid(s.pi, s.start[s.m]); c.valid(s.px, s.start[s.m])
@contract("Matrix.c", "calc_memory_row", ["C27", "C20"])
def _(c):
    n, extra, ratio = c.args; c.requires(And(n >= 0, extra >= 0, ratio >= 1))
    yield
    c.ensures("room for the row and the extra space", c.result >= n + extra)
    c.ensures("size", c.result == z3.ToInt(z3.ToReal(n) * ratio) + extra)
@contract("Matrix.c", "calc_memory", ["C26", "C27"])
def _(c):
    n, rows, extra, ratio = c.args; c.requires(And(n >= 0, rows >= 0, extra >= 0, ratio >= 1))
    yield
    c.ensures("size", c.result == z3.ToInt(z3.ToReal(n) * ratio) + rows * extra)
@contract("Matrix.c", "count_rows", ["C20", "C07", "C26"], safe=True)
def _(c):
    A, sizes = c.args; M = Mtx(c, A); c.requires(M.m >= 0); c.valid(A, 1); c.valid(M.pp, M.m + 1); c.valid(sizes, M.m)
    c.modifies(sizes, lo=0, hi=M.m)
    c.loop(0, lambda L: [("counted", c.forall(0, L["i"], lambda r: c.at(L).arr(sizes)[r] == M.len(r)))])
    yield
    c.ensures("number of entries of each row", c.forall(0, M.m, lambda r: c.arr(sizes)[r] == M.len(r)))
@contract("Matrix.c", "remove_coeff", ["C27", "C20", "C26"], safe=True)
def _(c):
    row, col = c.args; vals, cols, rng, ln = (c.get(row, f) for f in ("vals", "cols", "range", "len")); n = c.get(ln)
    v, k = c.arr(vals), c.arr(cols); free = c.mode == "call" and c.con.key not in c.eng.ghost_hints; p = c.eng.fresh("position", I) if free else c.ghost("position"); e0 = c.get(rng, "end"); s0 = c.get(rng, "start")
    c.requires(And(n >= 1, c.exists(0, n, lambda j: k[j] == col) if free else And(0 <= p, p < n, k[p] == col)), "the column occurs in the row")
    c.requires(c.forall(0, n, lambda a: c.forall(a + 1, n, lambda b: k[a] != k[b])), "columns occur once")
    if free: c.eng.assume(c.st, And(0 <= p, p < n, k[p] == col))
    c.valid(vals, n); c.valid(cols, n); c.valid(row, 1); c.valid(rng, 1); c.valid(ln, 1)
    c.modifies(vals, lo=0, hi=n); c.modifies(cols, lo=0, hi=n); c.modifies(rng, "end"); c.modifies(ln)
    sh = lambda i: If(i >= p, 1, 0)
    def inv(L):
        d = c.at(L); w, q = d.arr(vals), d.arr(cols); i = L["i"]
        return [("shift after the column", L["shift"] == If(i > p, 1, 0)), ("entries so far", c.forall(0, i, lambda j: Implies(j + sh(j) < n, And(w[j] == v[j + sh(j)], q[j] == k[j + sh(j)])))), ("entries to come", c.forall(i, n, lambda j: And(w[j] == v[j], q[j] == k[j])))]
    c.loop(0, inv)
    yield
    w, q = c.arr(vals), c.arr(cols)
    c.ensures("length and range shrink by one", And(c.get(ln) == n - 1, c.get(rng, "end") == e0 - 1, c.get(rng, "start") == s0))
    c.ensures("the other entries keep value and order", c.every(q, 0, simp(n - 1), lambda j, x: And(w[j] == v[j + sh(j)], x == k[j + sh(j)])))
    c.ensures("none of them is lost", c.every(k, 0, n, lambda j, x: Implies(j != p, And(w[simp(j - If(j > p, 1, 0))] == v[j], q[simp(j - If(j > p, 1, 0))] == x))))
@contract("Matrix.c", "insert_or_update_coeff", ["C27", "C20", "C26", "C15"], safe=True)
def _(c):
    A, row, col, val, size = c.args; M = Mtx(c, A); tol = z3.RealVal("1/10000000000")
    b, e = M.start[row], M.end[row]; nz = absr(val) > tol; sz0 = c.get(size)
    p = c.eng.fresh("place", I); found = And(p < e, M.i[p] == col)
    char = And(b <= p, p <= e, c.forall(b, p, lambda j: M.i[j] < col), c.forall(p, e, lambda j: M.i[j] >= col))
    c.requires(And(0 <= row, row < M.m, 0 <= b, b <= e), "row range")
    c.requires(c.forall(b, e, lambda j: c.forall(j + 1, e, lambda q: M.i[j] < M.i[q])), "the row is sorted")
    if c.mode == "verify": c.requires(char)          # the place is determined by the sorted row: no condition on the caller
    else: c.eng.assume(c.st, char)
    c.requires(Or(Not(nz), found, e < M.start[row + 1]), "space for one more entry")
    c.valid(A, 1); c.valid(M.pp, M.m + 1); c.valid(M.pi, e); c.valid(M.px, e); c.valid(size, 1)
    if c.mode != "call" or c.eng.safe: c.requires(Implies(And(nz, Not(found)), And(e < c.rlen(M.pi), e < c.rlen(M.px))), "allocated space for one more entry")
    for f in (M.pi, M.px): c.modifies(f, lo=b, hi=simp(e + If(And(nz, Not(found)), 1, 0)))
    c.modifies(M.pp, "end", lo=row, hi=row + 1); c.modifies(A, "nnz"); c.modifies(size)
    c.loop(0, lambda L: [("smaller so far", c.forall(b, L["i"], lambda j: M.i[j] < col)), ("no place yet", And(L["insertion"] == e, L["old_val"] == 0))])
    yield
    N = Mtx(c, A); d = If(And(nz, Not(found)), 1, If(And(Not(nz), found), -1, 0))
    c.ensures("counts follow", And(N.end[row] == e + d, N.nnz == M.nnz + d, c.get(size) == sz0 + d))
    c.ensures("returns the old coefficient", c.result == If(And(found, nz), M.x[p], 0))
    c.ensures("entries before keep their place", c.forall(b, p, lambda j: And(N.i[j] == M.i[j], N.x[j] == M.x[j])))
    c.ensures("the coefficient is stored", Implies(nz, And(N.i[p] == col, N.x[p] == val)))
    c.ensures("later entries follow in order", c.forall(p, e, lambda j: Implies(Or(j > p, Not(found)), And(N.i[j + d] == M.i[j], N.x[j + d] == M.x[j]))))
    c.ensures("and nothing else", c.forall(p, simp(e + d), lambda j: Implies(Or(j > p, Not(nz)), And(N.i[j] == M.i[simp(j - d)], N.x[j] == M.x[simp(j - d)]))))
    c.ensures("the row stays sorted", c.forall(b, simp(e + d), lambda j: c.forall(simp(j + 1), simp(e + d), lambda q: N.i[j] < N.i[q]))); c.ensures("a negligible coefficient is not in the row", Implies(Not(nz), c.forall(b, simp(e + d), lambda j: N.i[j] != col)))
@contract("Matrix.c", "shift_row", ["C27", "C20", "C26", "C15"], safe=True, bmc=(2, 3))
def _(c):
    A, row, extra, lim = c.args; M = Mtx(c, A); m = M.m
    c.requires(And(0 <= row, row < m, extra >= 0), "row"); c.requires(M.layout(), "rows do not overlap"); M.room(c)
    r1, j1, r2 = c.any("row", "entry", "later_row")
    if c.mode == "verify": c.requires(And(0 <= r1, r1 < m, 0 <= j1, j1 < M.len(r1), r1 < r2, r2 <= m))
    LEN = lambda hi: c.sum(0, hi, lambda r: M.len(r), "isum")
    for f in (M.pi, M.px): c.modifies(f, lo=0, hi=M.start[m])
    c.modifies(M.pp, "start", lo=0, hi=m); c.modifies(M.pp, "end", lo=0, hi=m)
    miss0 = extra - (M.start[row + 1] - M.end[row])
    lefts = lambda left, ls: M.start[left + 1] - ls                       # where the first moved row will start
    def plan(L):
        l, r, ms, ls, rs = (L[x] for x in ("left", "right", "missing_space", "left_shifts", "right_shifts"))
        el = If(l == row, M.end[row], lefts(l, ls) + LEN(row + 1) - LEN(l + 1)); sr = If(r == row + 1, M.start[row + 1], M.end[r - 1] + rs - LEN(r) + LEN(row + 1))
        return [("range", And(0 <= l, l <= row, row + 1 <= r, r <= m)), ("missing", ms == extra - (sr - el)), ("not negative", ms >= 0),
                ("left", Implies(l < row, And(0 <= ls, ls <= M.start[l + 1] - M.end[l], Implies(ms > 0, ls == M.start[l + 1] - M.end[l])))),
                ("right", Implies(r > row + 1, And(0 <= rs, rs <= M.start[r] - M.end[r - 1], Implies(ms > 0, rs == M.start[r] - M.end[r - 1]))))]
    c.loop(0, plan)
    same = lambda N, r: And(N.start[r] == M.start[r], N.end[r] == M.end[r])
    def moved(N, r, lo, hi): return And(lo <= r, r < hi)
    def left_inv(L):
        N = Mtx(c.at(L), A); l0 = L.entry["left"]; l = L["left"]; ns = L["next_start"]
        return [("range", And(l0 <= l, l <= row)), ("next start", And(ns == lefts(l0, L["left_shifts"]) + LEN(l + 1) - LEN(l0 + 1), Implies(l0 < row, ns >= M.end[l0]), Implies(l < row, ns <= M.start[l + 1]))),
                ("moved rows", c.forall(0, m + 1, lambda r: If(And(l0 < r, r <= l), And(N.start[r] >= M.end[l0], N.end[r] <= ns, N.end[r] - N.start[r] == M.len(r), N.end[r] <= M.end[r]), same(N, r)))),
                ("last moved row", Implies(l > l0, N.end[l] == ns)), ("order", Implies(And(l0 < r1, r1 < r2, r2 <= l), N.end[r1] <= N.start[r2])),
                ("the entry", And(N.i[N.start[r1] + j1] == M.i[M.start[r1] + j1], N.x[N.start[r1] + j1] == M.x[M.start[r1] + j1])), ("size", And(N.m == m))]
    c.loop(1, left_inv, use=lambda L: [])
    def right_inv(L):
        N = Mtx(c.at(L), A); H = Mtx(c.at(L.entry), A); q0 = L.entry["right"]; q = L["right"]; ne = L["next_end"]; rs = L["right_shifts"]; l = L["left"]
        return [("range", And(row + 1 <= q, q <= q0, q0 <= m)), ("next end", And(Implies(q0 > row + 1, ne == M.end[q0 - 1] + rs - LEN(q0) + LEN(q)), Implies(q0 > row + 1, ne <= M.start[q0]), Implies(q > row + 1, ne >= M.end[q - 1]))),
                ("moved rows", c.forall(0, m + 1, lambda r: If(And(q <= r, r < q0), And(N.end[r] <= M.start[q0], N.start[r] >= ne, N.end[r] - N.start[r] == M.len(r), N.start[r] >= M.start[r]), And(N.start[r] == H.start[r], N.end[r] == H.end[r])))),
                ("last moved row", Implies(q < q0, N.start[q] == ne)), ("order", Implies(And(q <= r1, r1 < r2, r2 < q0), N.end[r1] <= N.start[r2])),
                ("the entry", And(N.i[N.start[r1] + j1] == M.i[M.start[r1] + j1], N.x[N.start[r1] + j1] == M.x[M.start[r1] + j1])), ("size", N.m == m)]
    c.loop(2, right_inv)
    yield
    N = Mtx(c, A); rng = lambda *f: Implies(And(0 <= r1, r1 < m, r1 < r2, r2 <= m), And(*f))
    c.ensures("success means enough room behind the row", Implies(c.result, N.start[row + 1] - N.end[row] >= extra))
    c.ensures_any("rows keep their length and order", [r1, r2], rng(N.end[r1] - N.start[r1] == M.len(r1), N.start[r1] >= 0, N.end[r1] <= N.start[r2]))
    c.ensures("end of the storage unchanged", And(N.start[m] == M.start[m], N.end[m] == M.end[m]))
    c.ensures_any("every entry of every row is kept", [r1, j1], Implies(And(0 <= r1, r1 < m, 0 <= j1, j1 < M.len(r1)), And(N.i[N.start[r1] + j1] == M.i[M.start[r1] + j1], N.x[N.start[r1] + j1] == M.x[M.start[r1] + j1])))
    c.ensures("failure changes nothing", Implies(Not(c.result), c.forall(0, m, lambda r: And(N.start[r] == M.start[r], N.end[r] == M.end[r]))))

def csr(c, Ax, Ai, Ap, m, nnz):
    a = c.arr(Ap); c.requires(And(m >= 0, nnz >= 0, a[0] == 0, a[m] == nnz), "row pointers")
    c.requires(c.forall(0, m, lambda r: And(0 <= a[r], a[r] <= a[r + 1], a[r + 1] <= nnz)), "row pointers are sorted")
    c.valid(Ap, m + 1); c.valid(Ai, nnz); c.valid(Ax, nnz); return a, c.arr(Ai), c.arr(Ax)
@contract("Matrix.c", "matrix_new", ["C20", "C26", "C27"], safe=True, callable=False)
def _(c):
    Ax, Ai, Ap, m, n, nnz = c.args; a, ki, kx = csr(c, Ax, Ai, Ap, m, nnz)
    c.requires(c.forall(0, m, lambda r: c.forall(r + 1, m + 1, lambda q: a[r + 1] <= a[q])), "row pointers are sorted (pairwise)")
    r1, j1, r2 = c.any("row", "entry", "later_row"); c.requires(And(0 <= r1, r1 < m, 0 <= j1, j1 < a[r1 + 1] - a[r1], r1 < r2, r2 <= m))
    def inv(L):
        M = Mtx(c.at(L), L["A"]); i = L["i"]
        return [("storage used so far", And(L["offset"] == (RATIO - 1) * a[i] + ROWX * i, 0 <= i)), ("rows so far", c.forall(0, i, lambda r: And(M.start[r] == RATIO * a[r] + ROWX * r, M.end[r] == M.start[r] + a[r + 1] - a[r]))),
                ("the entry", Implies(r1 < i, And(M.i[M.start[r1] + j1] == ki[a[r1] + j1], M.x[M.start[r1] + j1] == kx[a[r1] + j1]))), ("size", And(M.m == m, M.n == n, M.nnz == nnz))]
    c.loop(0, inv)
    yield
    M = Mtx(c, c.result)
    c.ensures("sizes", And(M.m == m, M.n == n, M.nnz == nnz)); c.ensures("row lengths and order", And(M.len(r1) == a[r1 + 1] - a[r1], M.start[r1] >= 0, M.end[r1] <= M.start[r2], M.start[m] == M.end[m]))
    c.ensures("every entry of every row is stored", And(M.i[M.start[r1] + j1] == ki[a[r1] + j1], M.x[M.start[r1] + j1] == kx[a[r1] + j1]))
    c.ensures("allocated storage covers all rows", And(M.start[m] <= c.rlen(M.pi), M.start[m] <= c.rlen(M.px)))
@contract("Matrix.c", "matrix_new_no_extra_space", ["C20", "C26"], safe=True, callable=False)
def _(c):
    Ax, Ai, Ap, m, n, nnz = c.args; a, ki, kx = csr(c, Ax, Ai, Ap, m, nnz); j = c.any("entry"); c.requires(And(0 <= j, j < nnz))
    c.loop(0, lambda L: [("rows so far", (lambda M: c.forall(0, L["i"], lambda r: And(M.start[r] == a[r], M.end[r] == a[r + 1])))(Mtx(c.at(L), L["A"])))])
    yield
    M = Mtx(c, c.result)
    c.ensures("sizes", And(M.m == m, M.n == n, M.nnz == nnz)); c.ensures("row ranges", And(c.forall(0, m, lambda r: And(M.start[r] == a[r], M.end[r] == a[r + 1])), M.start[m] == nnz, M.end[m] == nnz)); c.ensures("entries", And(M.i[j] == ki[j], M.x[j] == kx[j]))
@contract("Matrix.c", "transpose", ["C20", "C26"], safe=True, callable=False, bmc=(2,))
def _(c):
    A, work = c.args; M = Mtx(c, A); m, n = M.m, M.n; c.requires(And(n >= 0, M.nnz >= 0)); c.requires(M.layout(), "rows do not overlap"); M.room(c); c.valid(work, n)
    c.requires(c.forall(0, m, lambda r: c.forall(M.start[r], M.end[r], lambda j: And(0 <= M.i[j], M.i[j] < n))), "column indices in range")
    LENS = lambda hi: c.sum(0, hi, lambda r: M.len(r), "isum"); c.requires(M.nnz == LENS(m), "number of entries")
    # S(q, r, j): entries of column q from position j of row r on;  T(q, r): from row r on
    if c.bmc:
        S = lambda q, r, j: sum([If(And(z3.IntVal(rr) > r, rr < m) if False else And(rr < m, Or(z3.IntVal(rr) > r, And(z3.IntVal(rr) == r))), c.sum(If(z3.IntVal(rr) == r, j, M.start[rr]), M.end[rr], lambda k: If(M.i[k] == q, 1, 0), "isum"), 0) for rr in range(c.eng.unroll)], z3.IntVal(0))
        T = lambda q, r: S(q, r, M.start[r])
    else: S, T = c.ghost_fn("entries_left", I, I, I, I), c.ghost_fn("entries_left_row", I, I, I)
    q_ = z3.Int("q?t")
    allq = lambda f, pat=None: c.forall(0, n, f) if c.bmc else z3.ForAll([q_], Implies(And(0 <= q_, q_ < n), f(q_)), **({"patterns": [pat(q_)]} if pat else {}))
    if not c.bmc:
        r_, j_ = z3.Ints("r?t j?t"); B = c.eng.base
        B.append(z3.ForAll([q_, r_, j_], S(q_, r_, j_) >= 0, patterns=[S(q_, r_, j_)])); B.append(z3.ForAll([q_, r_], T(q_, r_) >= 0, patterns=[T(q_, r_)])); B.append(z3.ForAll([q_], T(q_, m) == 0, patterns=[T(q_, m)]))
    def row_def(i): return [] if c.bmc else [z3.ForAll([q_], T(q_, i) == If(i < m, S(q_, i, M.start[i]), 0), patterns=[T(q_, i)])]
    def ent_def(i, j): return [] if c.bmc else [z3.ForAll([q_], S(q_, i, j) == If(j < M.end[i], S(q_, i, j + 1) + If(M.i[j] == q_, 1, 0), T(q_, i + 1)), patterns=[S(q_, i, j)])]
    r1, j1, q1, q2 = c.any("row", "entry", "column", "later_column")
    c.requires(And(0 <= r1, r1 < m, M.start[r1] <= j1, j1 < M.end[r1], q1 == M.i[j1], q1 < q2, q2 <= n))
    C = lambda L: c.at(L).arr(work); c.modifies(work, lo=0, hi=n)
    later = lambda i, j: [("total covers the entry", Implies(done(i, j), S(q1, r1, j1) <= T(q1, 0)))] if not c.bmc else []
    nn = lambda L: [("not negative", allq(lambda q: C(L)[q] >= 0))]
    done = lambda i, j: And(i >= r1, Or(i > r1, j > j1))
    tot = lambda L: c.sum(0, n, lambda q: C(L)[q], "isum", fam="counts")
    c.loop(0, lambda L: [("counted", allq(lambda q: C(L)[q] + T(q, L["i"]) == T(q, 0))), ("total", tot(L) == LENS(L["i"])), ("row", And(0 <= L["i"], L["i"] <= m))] + nn(L) + later(L["i"], M.start[L["i"]]), use=lambda L: row_def(L["i"]))
    c.loop(1, lambda L: [("counted", allq(lambda q: C(L)[q] + S(q, L["i"], L["j"]) == T(q, 0))), ("total", tot(L) == LENS(L["i"]) + L["j"] - M.start[L["i"]])] + nn(L) + later(L["i"], L["j"]), use=lambda L: (c.hint(M.i[L["j"]]), ent_def(L["i"], L["j"]))[1])
    TOT = lambda hi: c.sum(0, hi, lambda q: T(q, 0), "isum", fam="counts")
    def ptrs(L):
        N = Mtx(c.at(L), L["AT"]); i = L["i"]; w = C(L)
        return [("row pointers so far", allq(lambda q: If(q < i, And(N.end[q] - N.start[q] == T(q, 0), w[q] == N.start[q], N.start[q + 1] >= N.end[q], N.start[q] >= 0), w[q] == T(q, 0)))), ("total", TOT(n) == M.nnz), ("storage used", And(N.start[i] == RATIO * TOT(i) + ROWX * i, N.start[i] >= 0, i >= 0)),
                ("order", Implies(And(q1 < q2, q2 <= i), N.end[q1] <= N.start[q2])), ("order of all", c.forall(0, i, lambda q: N.end[q] <= N.start[i]) )] + ([] if c.bmc else [("pairwise order", c.forall(0, i, lambda a: c.forall(a + 1, i, lambda b: N.end[a] <= N.start[b])))])
    c.loop(2, ptrs)
    def cur(L):
        N = Mtx(c.at(L), L["AT"]); H = Mtx(c.at(L.entry), L["AT"]); return N
    def fill(L, left, j):
        N = Mtx(c.at(L), L["AT"]); w = C(L); i = L["i"]; pos = N.end[q1] - S(q1, r1, j1)
        return [("columns inside the allocation", allq(lambda q: N.end[q] <= N.start[n])), ("next free place of each column", allq(lambda q: And(w[q] + left(q) == N.end[q], w[q] >= N.start[q]))),
                ("the entry", Implies(done(i, j), And(N.start[q1] <= pos, pos < w[q1], N.i[pos] == r1, N.x[pos] == M.x[j1], left(q1) < S(q1, r1, j1))))]
    c.loop(3, lambda L: [("row", And(0 <= L["i"], L["i"] <= m))] + fill(L, lambda q: T(q, L["i"]), M.start[L["i"]]), use=lambda L: row_def(L["i"]))
    c.loop(4, lambda L: fill(L, lambda q: S(q, L["i"], L["j"]), L["j"]), use=lambda L: ent_def(L["i"], L["j"]))
    yield
    N = Mtx(c, c.result); pos = N.end[q1] - S(q1, r1, j1)
    c.ensures("sizes", And(N.m == n, N.n == m, N.nnz == M.nnz)); c.ensures("column lengths", N.len(q1) == T(q1, 0)); c.ensures("columns do not overlap", And(N.start[q1] >= 0, N.end[q1] <= N.start[q2]))
    c.ensures("every entry appears in its column", And(N.start[q1] <= pos, pos < N.end[q1], N.i[pos] == r1, N.x[pos] == M.x[j1]))
INACT = -1
@contract("Matrix.c", "remove_extra_space", ["C24", "C26", "C07"], safe=True, bmc=(2,))
def _(c):
    A, rs, cs, allx, mp = c.args; M = Mtx(c, A); m, n = M.m, M.n; S, K = c.arr(rs), c.arr(cs)
    c.requires(allx, "called at the end of presolve only"); c.requires(n >= 0); c.requires(M.layout(), "rows do not overlap"); M.room(c); c.valid(rs, m); c.valid(cs, n); c.valid(mp, n)
    r1, j1, r2, q1, q2 = c.any("row", "entry", "later_row", "column", "later_column")
    if c.mode == "verify": c.requires(And(0 <= r1, r1 < m, 0 <= j1, j1 < M.len(r1), r1 < r2, r2 < m, 0 <= q1, q1 < q2, q2 < n))
    c.requires(c.forall(0, m, lambda r: Implies(S[r] != INACT, c.forall(M.start[r], M.end[r], lambda j: And(0 <= M.i[j], M.i[j] < n)))), "column indices in range")
    alive = lambda r: S[r] != INACT
    dead = lambda hi: c.count(0, hi, lambda r: S[r] == INACT); keep = lambda hi: c.count(0, hi, lambda q: K[q] != INACT)
    for f in (M.pi, M.px): c.modifies(f, lo=0, hi=None)
    c.modifies(M.pp, lo=0, hi=None); c.modifies(A, "m"); c.modifies(A, "n"); c.modifies(mp, lo=0, hi=n)
    if c.mode == "verify":
        for f in "ipx": c.modifies_ptr(A, f)
    for r in (r1, r2): c.hint(r)
    c.inst(r1, r2)
    new = lambda r: r - dead(r)
    def pack(L):
        N = Mtx(c.at(L), A); i = L["i"]; d = L["n_deleted_rows"]; cu = L["curr"]
        return [("deleted so far", And(d == dead(i), 0 <= d, d <= i, 0 <= i)), ("storage used", And(cu >= 0, cu <= N.start[i], c.forall(0, i, lambda r: cu <= N.start[i]))), ("rows to come", c.forall(i, m + 1, lambda r: And(N.start[r] == M.start[r], N.end[r] == M.end[r]))),
                ("packed rows", c.forall(0, i - d, lambda r: And(0 <= N.start[r], N.start[r] <= N.end[r], N.end[r] <= cu))),
                ("entries to come", c.forall(N.start[i], M.start[m], lambda j: And(N.i[j] == M.i[j], N.x[j] == M.x[j]))),
                ("the row", Implies(And(alive(r1), r1 < i), And(dead(r1) <= r1, new(r1) < i - d, N.len(new(r1)) == M.len(r1), N.i[N.start[new(r1)] + j1] == M.i[M.start[r1] + j1], N.x[N.start[new(r1)] + j1] == M.x[M.start[r1] + j1]))),
                ("order", Implies(And(alive(r1), alive(r2), r2 < i), And(new(r1) < new(r2), N.end[new(r1)] <= N.start[new(r2)], new(r2) < i - d))), ("indices in range", c.forall(0, cu, lambda j: And(0 <= N.i[j], N.i[j] < n))), ("pairwise", c.forall(0, i - d, lambda a: c.forall(a + 1, i - d, lambda b: N.end[a] <= N.start[b])))]
    c.loop(0, pack)
    W = lambda L: c.at(L).arr(mp)
    mono = lambda w: And(Implies(And(K[q1] != INACT, K[q2] != INACT), w[q1] < w[q2]), Implies(K[q1] != INACT, And(0 <= w[q1], w[q1] <= q1)))
    ma = lambda q: If(K[q] == INACT, -1, keep(q))
    c.loop(1, lambda L: [("kept so far", And(L["col_count"] == keep(L["i"]), 0 <= L["i"])), ("map so far", And(Implies(q1 < L["i"], W(L)[q1] == ma(q1)), Implies(q2 < L["i"], And(W(L)[q2] == ma(q2), mono(W(L)))), Implies(And(q1 < L["i"], K[q1] != INACT), And(0 <= W(L)[q1], W(L)[q1] <= q1)), c.forall(0, L["i"], lambda q: And(W(L)[q] < keep(L["i"]), Implies(K[q] == INACT, W(L)[q] == -1)))))])
    def renum(L, i, at):
        N = Mtx(c.at(L), A); H = Mtx(c.at(L.entry), A) if False else None; w = W(L); m2 = N.m; x1 = N.start[new(r1)] + j1; dn = Or(new(r1) < i, And(new(r1) == i, x1 < at))
        return [("row", And(0 <= i)), ("indices to come in range", c.forall(at, N.start[m2], lambda j: And(0 <= N.i[j], N.i[j] < n))),
                ("the row", Implies(alive(r1), And(N.len(new(r1)) == M.len(r1), 0 <= new(r1), new(r1) < m2, N.i[x1] == If(dn, w[M.i[M.start[r1] + j1]], M.i[M.start[r1] + j1]))))]
    c.loop(2, lambda L: renum(L, L["i"], (lambda N: If(L["i"] < N.m, N.start[L["i"]], N.start[N.m]))(Mtx(c.at(L), A))))
    c.loop(3, lambda L: renum(L, L["i"], L["j"]))
    yield
    N = Mtx(c, A); w = c.arr(mp)
    c.ensures_any("map is a compaction", [q1, q2], Implies(And(0 <= q1, q1 < q2, q2 < n), mono(w)), pat=z3.MultiPattern(w[q1], w[q2]) if c.mode == "call" else None)
    c.ensures("rows keep length and order", And(Implies(alive(r1), And(N.len(new(r1)) == M.len(r1), 0 <= new(r1), new(r1) < N.m)), Implies(And(alive(r1), alive(r2)), And(new(r1) < new(r2), N.end[new(r1)] <= N.start[new(r2)]))))
    c.ensures("surviving rows keep their entries", Implies(alive(r1), And(N.i[N.start[new(r1)] + j1] == w[M.i[M.start[r1] + j1]], N.x[N.start[new(r1)] + j1] == M.x[M.start[r1] + j1])))
    c.ensures("number of rows and columns", And(N.m == m - dead(m), N.n == keep(n)))
    c.ensures_any("column map", [q1], Implies(And(0 <= q1, q1 < n) if c.mode == "call" else z3.BoolVal(True), And(Or(w[q1] == -1, And(0 <= w[q1], w[q1] <= q1)), (w[q1] == -1) == (K[q1] == INACT))))
    if c.mode != "call": c.ensures("column map counts the surviving columns", And(w[q1] == ma(q1), w[q2] == ma(q2)))
