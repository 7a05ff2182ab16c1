"""Families of small linear programs (bounded stand-ins). Every generator takes a numpy Generator and returns an LP."""
import numpy as np
from pslp import LP
INF = np.inf

def _sides(rng, ax, m, eq=.3, lo=.3, up=.3):
    lhs = np.full(m, -INF); rhs = np.full(m, INF)
    for i in range(m):
        t = rng.random()
        if t < eq: lhs[i] = rhs[i] = ax[i]
        elif t < eq + lo: lhs[i] = ax[i] - rng.integers(0, 4)
        elif t < eq + lo + up: rhs[i] = ax[i] + rng.integers(0, 4)
        else: lhs[i] = ax[i] - rng.integers(0, 4); rhs[i] = ax[i] + rng.integers(1, 4)
        if rng.random() < .05 and np.isfinite(lhs[i]):
            lhs[i] += rng.integers(0, 5); rhs[i] = max(rhs[i], lhs[i])
    if rng.random() < .2:
        i = rng.integers(0, m); lhs[i] = -INF; rhs[i] = INF
    return lhs, rhs

def _bounds(rng, x0, n, pl=.65, pu=.5):
    lb = np.where(rng.random(n) < pl, x0 - rng.integers(0, 4, n), -INF)
    ub = np.where(rng.random(n) < pu, x0 + rng.integers(0, 4, n), INF)
    if rng.random() < .5: lb = np.where(rng.random(n) < .8, np.minimum(0, x0), lb)
    return lb, ub

def _cost(rng, A, lhs, rhs, lb, ub, p=.5):
    """random cost, or one built from a dual feasible point (bounded LP)"""
    m, n = A.shape
    if rng.random() < p:
        y = rng.integers(-2, 3, m) * 1.0
        y = np.where(np.isinf(lhs), np.minimum(y, 0), y); y = np.where(np.isinf(rhs), np.maximum(y, 0), y)
        z = np.where(np.isinf(lb) & np.isinf(ub), 0, np.where(np.isinf(ub), rng.integers(0, 3, n), np.where(np.isinf(lb), -rng.integers(0, 3, n), rng.integers(-2, 3, n))))
        return A.T @ y + z
    return rng.integers(-3, 4, n) * 1.0

def _mat(rng, m, n, dens):
    A = rng.integers(-3, 4, (m, n)) * (rng.random((m, n)) < dens) * 1.0
    if rng.random() < .25: A = A * rng.choice([1, .5, 2, .1], (m, n))
    return A

def base(rng, mm=7, nn=8):
    m = rng.integers(1, mm); n = rng.integers(1, nn)
    A = _mat(rng, m, n, rng.choice([0.3, 0.45, 0.7]))
    for _ in range(rng.integers(0, 3)):
        k = rng.integers(0, 3)
        if k == 0 and m > 1: i, j = rng.choice(m, 2, replace=False); A[i] = A[j] * rng.choice([1, -1, 2, -.5])
        if k == 1 and n > 1: i, j = rng.choice(n, 2, replace=False); A[:, i] = A[:, j] * rng.choice([1, -1, 2, -.5])
        if k == 2:
            i = rng.integers(0, m); nz = np.nonzero(A[i])[0]
            if len(nz) > 2: A[i, rng.permutation(nz)[2:]] = 0
    x0 = rng.integers(-3, 4, n) * 1.0
    lb, ub = _bounds(rng, x0, n); lhs, rhs = _sides(rng, A @ x0, m)
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub))

def mid(rng):
    """larger and sparser: several rounds of every reduction, queues and row storage get longer"""
    m = rng.integers(8, 26); n = rng.integers(8, 31)
    A = _mat(rng, m, n, rng.choice([0.08, 0.12, 0.2, .3]))
    for _ in range(rng.integers(0, 6)):
        k = rng.integers(0, 3)
        if k == 0: i, j = rng.choice(m, 2, replace=False); A[i] = A[j] * rng.choice([1, -1, 2, -.5])
        if k == 1: i, j = rng.choice(n, 2, replace=False); A[:, i] = A[:, j] * rng.choice([1, -1, 2, -.5])
        if k == 2:
            i = rng.integers(0, m); nz = np.nonzero(A[i])[0]
            if len(nz) > 2: A[i, rng.permutation(nz)[2:]] = 0
    x0 = rng.integers(-3, 4, n) * 1.0
    lb, ub = _bounds(rng, x0, n, .8, .6); lhs, rhs = _sides(rng, A @ x0, m, .4, .3, .25)
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub, .8))

def dton(rng, tiny=False):
    """many two-variable equalities: chains, stars, repeated substitution and fill-in"""
    n = rng.integers(3, 14); k = rng.integers(1, n); r = rng.integers(1, 9); m = k + r
    A = np.zeros((m, n))
    star = rng.random() < .4
    for i in range(k):
        a, b = (0, 1 + i % (n - 1)) if star else rng.choice(n, 2, replace=False)
        if rng.random() < .15: a, b = rng.choice(n, 2, replace=False)
        if a == b: b = (a + 1) % n
        A[i, a] = rng.choice([1, -1, 2, 3, -2, .5]); A[i, b] = rng.choice([1, -1, 2, -3, 1.5])
    A[k:] = _mat(rng, r, n, rng.choice([.2, .4, .7]))
    if rng.random() < .15:
        i = k + rng.integers(0, r); A[i] *= 0; nz = rng.choice(n, min(n, 3), replace=False); A[i, nz] = rng.choice([1, 2, -1], len(nz))
    if tiny:
        for _ in range(2): A[rng.integers(0, m), rng.integers(0, n)] = rng.choice([1e-11, 5e-11, -1e-10])
    x0 = rng.integers(-3, 4, n) * 1.0; ax = A @ x0
    lb, ub = _bounds(rng, x0, n, .7, .6); lhs, rhs = _sides(rng, ax, m)
    lhs[:k] = rhs[:k] = ax[:k]
    A = A[(p := rng.permutation(m))]; lhs, rhs = lhs[p], rhs[p]
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub, .7))

def fill(rng):
    """one hub variable whose column must grow by more than its slack: storage is shifted"""
    n = rng.integers(6, 16); m = rng.integers(8, 24); A = np.zeros((m, n)); nd = rng.integers(1, 4)
    for i in range(nd): A[i, 0] = rng.choice([1, -1, 2]); A[i, 1 + i] = rng.choice([1, -1, .5])
    for i in range(nd, m):
        A[i, 1 + rng.integers(0, nd)] = rng.choice([1, 2, -1, 3])
        for j in rng.choice(np.arange(nd + 1, n), rng.integers(1, 4), replace=False) if n - nd - 1 >= 3 else []: A[i, j] = rng.choice([1, -1, 2, -3])
        if rng.random() < .3: A[i, 0] = rng.choice([1, -1, 2])
    x0 = rng.integers(-3, 4, n) * 1.0; ax = A @ x0
    lb, ub = _bounds(rng, x0, n, .8, .8); lhs, rhs = _sides(rng, ax, m, .2, .4, .3); lhs[:nd] = rhs[:nd] = ax[:nd]
    p = rng.permutation(m); q = rng.permutation(n); A = A[p][:, q]; lhs, rhs, lb, ub = lhs[p], rhs[p], lb[q], ub[q]
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub, .8))

def pcols(rng):
    lp = base(rng, 6, 9); A = lp.dense(); m, n = A.shape
    if n < 3: return lp
    c = lp.c.copy()
    for _ in range(rng.integers(1, 3)):
        k = rng.integers(2, min(n, 6) + 1) if n > 2 else 2; idx = rng.choice(n, k, replace=False)
        b = A[:, idx[0]].copy()
        while np.count_nonzero(b) < min(2, m): b[rng.integers(0, m)] = rng.choice([1, -2, 3])
        cc = rng.integers(-2, 3)
        for j in idx:
            t = rng.choice([1, -1, 2, -.5]); A[:, j] = b * t
            c[j] = t * cc if rng.random() < .75 else rng.integers(-3, 4)
    x0 = np.where(np.isfinite(lp.lb), lp.lb, np.where(np.isfinite(lp.ub), lp.ub, rng.integers(-5, 6, n))); ax = A @ x0
    e = lp.lhs == lp.rhs
    lhs = np.where(np.isfinite(lp.lhs), ax - np.where(e, 0, rng.integers(0, 3, m)), -INF); rhs = np.where(np.isfinite(lp.rhs), ax + np.where(e, 0, rng.integers(0, 3, m)), INF)
    return LP.from_dense(A, lhs, rhs, lp.lb, lp.ub, c)

def prows(rng):
    lp = base(rng, 9, 7); A = lp.dense(); m, n = A.shape
    if m < 3: return lp
    for _ in range(rng.integers(1, 3)):
        idx = rng.choice(m, rng.integers(2, min(m, 5) + 1), replace=False); b = A[idx[0]].copy()
        while np.count_nonzero(b) < min(3, n): b[rng.integers(0, n)] = rng.choice([1, -2, 3])
        for i in idx: A[i] = b * rng.choice([1, -1, 2, -.5, 3])
    x0 = np.where(np.isfinite(lp.lb), lp.lb, np.where(np.isfinite(lp.ub), lp.ub, rng.integers(-5, 6, n))); ax = A @ x0
    lhs, rhs = _sides(rng, ax, m, rng.choice([0, .2, .4]), .3, .25)
    return LP.from_dense(A, lhs, rhs, lp.lb, lp.ub, _cost(rng, A, lhs, rhs, lp.lb, lp.ub, .8))

def ston(rng):
    """column singletons: free, implied free, in equalities and inequalities, several per row"""
    lp = base(rng, 6, 6); A = lp.dense(); m, n = A.shape; k = rng.integers(1, 5)
    S = np.zeros((m, k))
    for j in range(k): S[rng.integers(0, m), j] = rng.choice([1, -1, 2, -3, .5])
    B = np.hstack([A, S]); xs = rng.integers(-3, 4, k) * 1.0
    ls = np.where(rng.random(k) < .5, xs - rng.integers(0, 9, k), -INF); us = np.where(rng.random(k) < .4, xs + rng.integers(0, 9, k), INF)
    lb = np.concatenate([lp.lb, ls]); ub = np.concatenate([lp.ub, us])
    x0 = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub, 1.)); ax = B @ x0
    lhs, rhs = _sides(rng, ax, m, .45, .25, .25)
    q = rng.permutation(n + k); B, lb, ub = B[:, q], lb[q], ub[q]
    return LP.from_dense(B, lhs, rhs, lb, ub, _cost(rng, B, lhs, rhs, lb, ub, .75))

def dualfix(rng):
    """columns every row lets grow (or shrink), with and without a bound on that side and with zero cost"""
    lp = base(rng, 7, 8); A = lp.dense(); m, n = A.shape; c = lp.c.copy()
    lb, ub, lhs, rhs = lp.lb.copy(), lp.ub.copy(), lp.lhs.copy(), lp.rhs.copy()
    for i in range(m):
        if rng.random() < .7:
            if rng.random() < .5: lhs[i] = -INF
            else: rhs[i] = INF
    for i in range(m):
        if lhs[i] == -INF and rhs[i] == -INF: lhs[i], rhs[i] = rng.integers(-5, 5), INF
    for j in range(n):
        if rng.random() < .5:
            s = rng.choice([-1, 1])
            for i in range(m):
                if A[i, j] == 0: continue
                if lhs[i] == -INF and rhs[i] == INF: continue
                if lhs[i] == -INF: A[i, j] = -s * abs(A[i, j])
                elif rhs[i] == INF: A[i, j] = s * abs(A[i, j])
            c[j] = -s * rng.choice([0, 0, 1, 2]) if rng.random() < .9 else c[j]
            if rng.random() < .4: (ub if s > 0 else lb)[j] = s * INF
    return LP.from_dense(A, lhs, rhs, lb, ub, c)

def prop(rng):
    """rows that tighten bounds, are redundant, forcing, or have one unbounded term"""
    m = rng.integers(1, 7); n = rng.integers(2, 8); A = _mat(rng, m, n, rng.choice([.4, .6, .8]))
    if rng.random() < .3: A = np.abs(A)
    x0 = rng.integers(0, 4, n) * 1.0
    lb = np.where(rng.random(n) < .85, np.minimum(x0, rng.choice([0, 0, -1, -5], n)), -INF); ub = np.where(rng.random(n) < .7, x0 + rng.integers(0, 7, n), INF)
    if rng.random() < .15: ub = np.where(np.isfinite(ub) & (rng.random(n) < .3), rng.choice([1e7, 2e7, 1e8]), ub)
    lhs = np.full(m, -INF); rhs = np.full(m, INF); lo = np.where(A > 0, A * np.where(np.isfinite(lb), lb, 0), A * np.where(np.isfinite(ub), ub, 3)).sum(1)
    ax = A @ x0
    for i in range(m):
        t = rng.random()
        if t < .25: rhs[i] = max(ax[i], lo[i]) + rng.choice([0, 0, 1, 2])
        elif t < .5: lhs[i] = ax[i] - rng.choice([0, 1, 2, 8])
        elif t < .75: lhs[i] = rhs[i] = ax[i]
        else: lhs[i] = ax[i] - rng.integers(0, 9); rhs[i] = ax[i] + rng.integers(0, 9)
        if rng.random() < .05 and np.isfinite(lhs[i]): lhs[i] += 6; rhs[i] = max(rhs[i], lhs[i])
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub, .6))

def triv(rng):
    """singleton rows of every sign and side, empty rows and columns, fixed and nearly fixed variables"""
    lp = base(rng, 5, 7); A = lp.dense(); m, n = A.shape; k = rng.integers(1, 7)
    S = np.zeros((k, n)); x0 = np.where(np.isfinite(lp.lb), lp.lb, np.where(np.isfinite(lp.ub), lp.ub, 0.))
    if rng.random() < .7: x0 = x0 + np.where(np.isfinite(lp.ub) & np.isfinite(lp.lb), rng.integers(0, 2, n) * np.nan_to_num(lp.ub - lp.lb, posinf=0, neginf=0) / 2, np.where(np.isfinite(lp.lb), rng.integers(0, 2, n), 0))
    for i in range(k):
        if rng.random() < .85: S[i, rng.integers(0, n)] = rng.choice([1, -1, 2, -3, .5])
    B = np.vstack([A, S]); ax = B @ x0; lhs, rhs = _sides(rng, ax, m + k, .25, .3, .3)
    lb, ub = lp.lb.copy(), lp.ub.copy()
    for j in range(n):
        t = rng.random()
        if t < .1 and np.isfinite(lb[j]): ub[j] = lb[j]
        elif t < .14 and np.isfinite(lb[j]): ub[j] = lb[j] + 5e-10
        elif t < .2: B[:, j] = 0
    q = rng.permutation(m + k); B, lhs, rhs = B[q], lhs[q], rhs[q]
    return LP.from_dense(B, lhs, rhs, lb, ub, _cost(rng, B, lhs, rhs, lb, ub, .6))

def big(rng):
    """hundreds of rows and columns so that queues and logs outgrow their initial capacity"""
    m = int(rng.integers(150, 420)); n = int(rng.integers(150, 420)); A = np.zeros((m, n))
    for i in range(m):
        k = rng.choice([1, 1, 2, 2, 3, 4]); A[i, rng.choice(n, k, replace=False)] = rng.choice([1, -1, 2, -2, 3], k)
    x0 = rng.integers(-3, 4, n) * 1.0; ax = A @ x0; lhs, rhs = _sides(rng, ax, m, .3, .3, .3)
    lb, ub = x0 - rng.integers(0, 4, n), x0 + rng.integers(0, 4, n)
    lb = np.where(rng.random(n) < .1, -INF, lb); ub = np.where(rng.random(n) < .2, INF, ub)
    k1 = rng.integers(0, n); ub[:k1] = np.where(rng.random(k1) < .5, lb[:k1], ub[:k1]); ub = np.where(np.isinf(ub) & (ub < 0), INF, ub)
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub, .8))

def huge(rng):
    """thousands of fixed variables: growth of the deletion queues and of the recovery log"""
    n = int(rng.integers(2100, 2600)); m = 40
    Ai, Ax, Ap = [], [], [0]; x0 = rng.integers(-3, 4, n) * 1.0; ax = []
    for i in range(m):
        k = np.sort(rng.choice(n, 60, replace=False)); v = rng.choice([1., -1, 2, -2], 60)
        Ai += list(k); Ax += list(v); Ap.append(len(Ai)); ax.append(v @ x0[k])
    ax = np.array(ax); lhs, rhs = _sides(rng, ax, m, .2, .4, .3); lb = x0 - (rng.random(n) < .15) * 2; ub = np.where(lb == x0, x0, x0 + rng.integers(0, 3, n))
    return LP(Ax, Ai, Ap, lhs, rhs, lb, ub, rng.integers(-3, 4, n))

def degenerate(rng):
    """edge shapes: no rows, no columns' entries, one row, one column, all free, all fixed"""
    t = rng.integers(0, 7)
    n = rng.integers(1, 5); m = rng.integers(1, 5); A = _mat(rng, m, n, .6); x0 = rng.integers(-2, 3, n) * 1.0
    if t == 1: A = A * 0
    if t == 2: A = A[:1]
    if t == 3: A = A[:, :1]; x0 = x0[:1]
    if t == 6: A = A[:0]
    m, n = A.shape; ax = A @ x0; lb, ub = _bounds(rng, x0, n)
    if t == 4: lb, ub = np.full(n, -INF), np.full(n, INF)
    if t == 5: lb = ub = x0.copy()
    if t == 6: return LP.from_dense(A, np.zeros(0), np.zeros(0), lb, ub, rng.integers(-2, 3, n) * 1.)
    lhs, rhs = _sides(rng, ax, m)
    return LP.from_dense(A, lhs, rhs, lb, ub, _cost(rng, A, lhs, rhs, lb, ub))

def tiny(rng):
    """negligible coefficients: only the representation is judged, values are not"""
    return dton(rng, True)

FAM = dict(tiny=tiny, base=base, mid=mid, dton=dton, fill=fill, pcols=pcols, prows=prows, ston=ston, dualfix=dualfix, prop=prop, triv=triv, big=big, huge=huge, degenerate=degenerate)
