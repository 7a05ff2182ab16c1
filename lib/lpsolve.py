"""Reference solver (HiGHS through scipy) and knife-edge filters."""
import warnings; warnings.filterwarnings("ignore")
import numpy as np
from scipy.optimize import linprog
from scipy.sparse import csr_matrix, vstack
from pslp import LP

def _mats(lp):
    if lp.n * lp.m < 3000: return lp.dense()
    return csr_matrix((lp.Ax, lp.Ai, lp.Ap), shape=(lp.m, lp.n))
def solve(lp, c=None):
    """-> (status, obj, x, y, z); status 'opt' | 'inf' | 'unb' | '?'"""
    if lp.n == 0:
        ok = np.all(lp.lhs <= 1e-6) and np.all(lp.rhs >= -1e-6)
        return ("opt", 0.0, np.zeros(0), np.zeros(lp.m), np.zeros(0)) if ok else ("inf",) + (None,) * 4
    c = lp.c if c is None else c
    if lp.m == 0:
        if (lp.lb > lp.ub).any(): return ("inf",) + (None,) * 4
        x = np.where(c > 0, lp.lb, np.where(c < 0, lp.ub, np.where(np.isfinite(lp.lb), lp.lb, np.where(np.isfinite(lp.ub), lp.ub, 0))))
        if not np.isfinite(x).all(): return ("unb",) + (None,) * 4
        return "opt", float(c @ x), x, np.zeros(0), c.copy()
    A = _mats(lp); sp = not isinstance(A, np.ndarray)
    eq = np.nonzero(lp.lhs == lp.rhs)[0]; ne = lp.lhs != lp.rhs
    U = np.nonzero(ne & np.isfinite(lp.rhs))[0]; L = np.nonzero(ne & np.isfinite(lp.lhs))[0]
    st = vstack if sp else np.vstack
    bub = np.concatenate([lp.rhs[U], -lp.lhs[L]])
    Aub = st([A[U], -A[L]]) if len(bub) else None
    r = linprog(c, A_ub=Aub, b_ub=bub if len(bub) else None, A_eq=A[eq] if len(eq) else None, b_eq=lp.rhs[eq] if len(eq) else None,
                bounds=np.column_stack([lp.lb, lp.ub]), method="highs-ds")
    if r.status == 2 or r.status == 4:
        # "infeasible" of the dual simplex may mean "unbounded or infeasible": settle it without a cost
        if np.any(c) and solve(lp, np.zeros(lp.n))[0] == "opt": return ("unb" if r.status == 2 else "?",) + (None,) * 4
        return ("inf",) + (None,) * 4
    if r.status == 3: return ("unb",) + (None,) * 4
    if r.status != 0: return ("?",) + (None,) * 4
    y = np.zeros(lp.m)
    if len(eq): y[eq] = r.eqlin.marginals
    if len(bub):
        mu = r.ineqlin.marginals
        y[U] += mu[:len(U)]; y[L] -= mu[len(U):]
    return "opt", r.fun, r.x, y, c - A.T @ y
def robustly_feasible(lp, d=1e-4):
    """feasible even after every inequality side and bound is tightened by d (and not merely within tolerance)"""
    t = LP.from_json(lp.to_json())
    ne = t.lhs < t.rhs; t.lhs[ne] += d; t.rhs[ne] -= d
    nb = t.lb < t.ub; t.lb[nb] += d; t.ub[nb] -= d; t.c[:] = 0
    if (t.lb > t.ub).any() or (t.lhs > t.rhs).any(): return False
    return solve(t)[0] == "opt"
def feasible_with_slack(lp, d=1e-4):
    """infeasible LP becomes feasible if relaxed by d: knife-edge infeasible"""
    t = LP.from_json(lp.to_json()); t.lhs -= d; t.rhs += d; t.lb -= d; t.ub += d; t.c[:] = 0
    return solve(t)[0] == "opt"
def perturbed(lp, rng):
    t = LP.from_json(lp.to_json())
    p = lambda a: np.where(np.isfinite(a), a + 1e-3 * rng.standard_normal(len(a)), a)
    e = t.lhs == t.rhs; t.lhs = p(t.lhs) - 1e-3 * ~e; t.rhs = np.where(e, t.lhs, p(t.rhs) + 1e-2)
    f = t.lb == t.ub; t.lb = p(t.lb) - 1e-2; t.ub = np.where(f, t.lb, p(t.ub) + 1e-2); t.c = t.c + 1e-3 * rng.standard_normal(t.n) * (t.c != 0)
    return t
