"""Oracles of the bounded stand-ins: each takes a Case and returns a list of failure strings."""
import ctypes, json
import numpy as np
from pslp import *
from lpsolve import *
INF = np.inf
TOL = 1e-3

class Case:
    def __init__(s, lib, lp, st, rng, hooked=False):
        s.lib, s.lp, s.st, s.rng, s.hooked = lib, lp, st, rng, hooked
        s._orig = None; s.R = None; s.info = {}
    @property
    def orig(s):
        if s._orig is None: s._orig = solve(s.lp)
        return s._orig
    def start(s):
        if s.R is None:
            s.R = Run(s.lib, s.lp, s.st); s.status = s.R.run()
            s.red = s.R.reduced() if s.status in (0, 1) else None
            s._rs = None
        return s.R
    @property
    def rsol(s):
        if s._rs is None: s._rs = solve(s.red[0])
        return s._rs
    def close(s):
        if s.R is not None: s.R.free(); s.R = None

def o_status(c):
    """the documented status codes only"""
    c.start()
    return [] if c.status in (0, 1, 2, 6) else [f"unknown status {c.status}"]
def o_infeasible(c):
    c.start(); out = []
    if c.status == 2:
        if c.orig[0] in ("opt", "unb") and robustly_feasible(c.lp): out.append(f"declared infeasible but {c.orig[0]}")
    elif c.status in (0, 1) and c.orig[0] == "inf":
        r = c.rsol[0]
        if r in ("opt", "unb") and robustly_feasible(c.red[0]) and not feasible_with_slack(c.lp): out.append(f"infeasible problem became {r}")
    return out
def o_unbounded(c):
    c.start(); out = []
    if c.status == 6:
        if c.orig[0] == "opt": out.append("declared unbounded or infeasible but has an optimum")
    elif c.status in (0, 1) and c.orig[0] == "unb":
        if c.rsol[0] == "opt" and robustly_feasible(c.lp): out.append("unbounded problem became one with an optimum")
        if c.rsol[0] == "inf" and robustly_feasible(c.lp): out.append("unbounded problem became infeasible")
    elif c.status in (0, 1) and c.orig[0] == "opt" and c.rsol[0] == "unb": out.append("problem with an optimum became unbounded")
    return out
def o_objective(c):
    c.start(); out = []
    if c.orig[0] != "opt": return out
    if c.status == 2:
        if robustly_feasible(c.lp): out.append("declared infeasible but has an optimum")
    elif c.status == 6: out.append("declared unbounded or infeasible but has an optimum")
    elif c.status in (0, 1):
        rp, off = c.red; r = c.rsol
        if r[0] == "inf":
            if robustly_feasible(c.lp): out.append("reduced problem infeasible")
        elif r[0] == "unb": out.append("reduced problem unbounded")
        elif r[0] == "opt" and not abs(c.orig[1] - r[1] - off) <= TOL * (1 + abs(c.orig[1])): out.append(f"optimal value {c.orig[1]:g} but reduced optimum + offset {r[1] + off:g}")
    return out
def _primal_bad(lp, x):
    if not np.isfinite(x).all(): return "recovered point not finite"
    t = TOL * (1 + np.abs(x).max(initial=0)); ax = lp.dense() @ x
    if (ax < lp.lhs - t).any() or (ax > lp.rhs + t).any(): return "recovered point violates a row"
    if (x < lp.lb - t).any() or (x > lp.ub + t).any(): return "recovered point violates a bound"
def o_primal(c):
    """objective identity for an arbitrary reduced point; feasibility for a feasible reduced point"""
    c.start(); out = []
    if c.status not in (0, 1): return out
    rp, off = c.red; rng = c.rng
    y = np.zeros(rp.m); z = rp.c.copy()
    x = rng.integers(-4, 5, rp.n) * 1.0
    X = c.R.post(x, y, z)[0]
    if np.isfinite(X).all():
        a, b = c.lp.c @ X, rp.c @ x + off
        if abs(a - b) > 1e-5 * (1 + np.abs(c.lp.c * X).sum()): out.append(f"objective of a reduced point {b:g} but of the recovered point {a:g}")
    else: out.append("recovered point not finite")
    q = c.rsol if rng.random() < .5 else None
    if q is None or q[0] != "opt":
        t = LP.from_json(rp.to_json()); t.lb, t.ub = np.where(np.isfinite(t.lb), t.lb, np.minimum(t.ub, 0) - 50.), np.where(np.isfinite(t.ub), t.ub, np.maximum(t.lb, 0) + 50.)
        t.lb = np.where(np.isfinite(t.lb), t.lb, -50.); q = solve(t, rng.standard_normal(rp.n))
    if q[0] == "opt":
        X = c.R.post(q[2], y, z)[0]
        m = _primal_bad(c.lp, X)
        if m and robustly_feasible(c.lp): out.append(m)
    return out
def _dual_bad(c):
    rp, off = c.red; r = c.rsol; lp = c.lp; out = []
    if r[0] != "opt" or c.orig[0] != "opt": return out
    x, y, z = c.R.post(r[2], r[3], r[4])
    if not (np.isfinite(y).all() and np.isfinite(z).all() and np.isfinite(x).all()): return ["recovered multipliers not finite"]
    A = lp.dense(); ax = A @ x
    t = TOL * (1 + np.abs(x).max(initial=0)); ty = TOL * (1 + np.abs(y).max(initial=0))
    if np.abs(lp.c - A.T @ y - z).max(initial=0) > ty: out.append("recovered reduced costs differ from c - A'y")
    if c.st.primal_propagation:
        # propagated bounds carry a safety margin; a point that uses the margin is no exact vertex and has no exact multipliers
        v = np.concatenate([lp.lhs - ax, ax - lp.rhs, lp.lb - x, x - lp.ub]).max(initial=0)
        if 2e-7 < v < 1e-4: return out
    if ((y > ty) & ~(np.abs(ax - lp.lhs) <= t)).any(): out.append("positive multiplier on an inactive left side")
    if ((y < -ty) & ~(np.abs(ax - lp.rhs) <= t)).any(): out.append("negative multiplier on an inactive right side")
    if ((z > ty) & ~(np.abs(x - lp.lb) <= t)).any(): out.append("positive reduced cost off the lower bound")
    if ((z < -ty) & ~(np.abs(x - lp.ub) <= t)).any(): out.append("negative reduced cost off the upper bound")
    return out
def o_dual(c):
    c.start()
    if c.status not in (0, 1): return []
    out = _dual_bad(c)
    if out and c.st.primal_propagation:
        # bounds are widened by a margin during propagation: a tie within tolerance is not a defect, so it must survive perturbation
        bad = 0; g = np.random.default_rng(7)
        for _ in range(4):
            k = Case(c.lib, perturbed(c.lp, g), c.st, g); k.start()
            bad += bool(k.status in (0, 1) and _dual_bad(k)); k.close()
        if bad < 3: return []
    return out
def o_stationarity(c):
    """any multipliers of the reduced rows (no optimality needed) give z = c - A'y"""
    c.start()
    if c.status not in (0, 1): return []
    rp, off = c.red; y = c.rng.integers(-3, 4, rp.m) * 1.0; x = c.rng.integers(-4, 5, rp.n) * 1.0
    z = rp.c - rp.dense().T @ y if rp.n else np.zeros(0)
    X, Y, Z = c.R.post(x, y, z)
    if not (np.isfinite(Y).all() and np.isfinite(Z).all()): return ["recovered multipliers not finite"]
    e = np.abs(c.lp.c - c.lp.dense().T @ Y - Z).max(initial=0)
    return [f"recovered reduced costs differ from c - A'y by {e:g}"] if e > 1e-5 * (1 + np.abs(Y).max(initial=0)) else []
def o_wellformed(c):
    c.start()
    if c.status not in (0, 1): return []
    p = c.R.p.contents.reduced_prob.contents; m, n, nnz = p.m, p.n, p.nnz
    if m > c.lp.m or n > c.lp.n: return [f"reduced problem larger than original: {m}x{n}"]
    Ap = [p.Ap[i] for i in range(m + 1)]
    if Ap[0] != 0 or Ap[m] != nnz or any(Ap[i] > Ap[i + 1] for i in range(m)): return ["row pointers malformed"]
    if not np.isfinite(p.obj_offset): return ["objective offset not finite"]
    for i in range(m):
        q = [p.Ai[k] for k in range(Ap[i], Ap[i + 1])]
        if any(a >= b for a, b in zip(q, q[1:])) or any(a < 0 or a >= n for a in q): return ["column indices of a row not increasing within range"]
        if any(p.Ax[k] == 0 or not np.isfinite(p.Ax[k]) for k in range(Ap[i], Ap[i + 1])): return ["zero or non-finite coefficient stored"]
        l, u = p.lhs[i], p.rhs[i]
        if np.isnan(l) or np.isnan(u) or l == INF or u == -INF or l > u + 1e-9 * (1 + abs(l)): return ["row sides not an interval"]
        if len(q) == 0: return ["empty row left"]
    for j in range(n):
        l, u = p.lbs[j], p.ubs[j]
        if np.isnan(l) or np.isnan(u) or l == INF or u == -INF or l > u + 1e-9 * (1 + abs(l)): return ["bounds not an interval"]
        if not np.isfinite(p.c[j]): return ["cost not finite"]
    cols = np.zeros(n, int)
    for k in range(nnz): cols[p.Ai[k]] += 1
    if n and (cols == 0).any(): return ["empty column left"]
    return []
def _result(R, s, k=None):
    if s not in (0, 1): return (s,)
    rp, off = R.reduced(); r = [s, rp.m, rp.n, off] + [a.tobytes() for a in rp.arrays()]
    g = np.random.default_rng(5); x, y = g.integers(-3, 4, rp.n) * 1., g.integers(-3, 4, rp.m) * 1.
    return tuple(r + [a.tobytes() for a in R.post(x, y, rp.c.copy())])
def o_inputs(c):
    """caller's arrays neither modified nor needed after construction; instances independent; deterministic"""
    lp, lib, st = c.lp, c.lib, c.st; out = []
    keep = [a.copy() for a in lp.arrays()]
    R = Run(lib, lp, st)
    if any(a.tobytes() != b.tobytes() for a, b in zip(keep, lp.arrays())): out.append("construction modified the caller's data")
    s = R.run(); base_ = _result(R, s)
    if any(a.tobytes() != b.tobytes() for a, b in zip(keep, lp.arrays())): out.append("presolve modified the caller's data")
    # overwrite the caller's arrays after construction; interleave with a second instance
    q = LP(*[lp.Ax, lp.Ai, lp.Ap, lp.lhs, lp.rhs, lp.lb, lp.ub, lp.c]); q = LP(*[a.copy() for a in (lp.Ax, lp.Ai, lp.Ap, lp.lhs, lp.rhs, lp.lb, lp.ub, lp.c)])
    P = Run(lib, q, st); S = Run(lib, lp, st)
    for a in q.arrays(): a[:] = -77 if a.dtype == np.int32 else np.nan
    s2 = S.run(); sP = P.run()
    rp_, rS = _result(P, sP), _result(S, s2)
    if rp_ != base_: out.append("result depends on the caller's arrays after construction")
    if rS != base_: out.append("repeated run gives a different result")
    if _result(R, s) != base_: out.append("another instance changed this instance's result")
    P.free(); S.free(); R.free()
    return out
def o_repeat(c):
    """recovery can be repeated, with different points in between, and leaves its arguments and the reduced problem alone"""
    c.start()
    if c.status not in (0, 1): return []
    R = c.R; rp, off = c.red; g = c.rng; out = []
    pts = [(g.integers(-3, 4, rp.n) * 1., g.integers(-3, 4, rp.m) * 1., g.integers(-3, 4, rp.n) * 1.) for _ in range(3)]
    b = [tuple(a.tobytes() for a in R.post(*p)) for p in pts]
    k = [tuple(a.tobytes() for a in p) for p in pts]
    for i in (2, 0, 1, 1):
        if tuple(a.tobytes() for a in R.post(*pts[i])) != b[i]: out.append("recovering the same point again gives a different result"); break
    if [tuple(a.tobytes() for a in p) for p in pts] != k: out.append("recovery modified its arguments")
    rp2, off2 = R.reduced()
    if off2 != off or any(a.tobytes() != b_.tobytes() for a, b_ in zip(rp.arrays(), rp2.arrays())): out.append("recovery modified the reduced problem")
    if 0 < c.st.max_time < 1: return out   # another run may stop elsewhere
    F = Run(c.lib, c.lp, c.st); F.run()
    if F.status not in (0, 1): out.append('repeated run gives a different verdict')
    elif tuple(a.tobytes() for a in F.post(*pts[1])) != b[1]: out.append("recovery depends on earlier recoveries")
    F.free(); return out
def o_stats(c):
    c.start(); out = []
    s = c.R.stats(); lp = c.lp
    if (s.n_rows_original, s.n_cols_original, s.nnz_original) != (lp.m, lp.n, lp.nnz): out.append("original dimensions wrong")
    if c.status in (0, 1):
        rp, off = c.red
        if (s.n_rows_reduced, s.n_cols_reduced, s.nnz_reduced) != (rp.m, rp.n, rp.nnz): out.append("reduced dimensions wrong")
        same = (rp.m, rp.n, rp.nnz) == (lp.m, lp.n, lp.nnz)
        if same != (c.status == 0): out.append(f"status {c.status} but dimensions {'un' if same else ''}changed")
        parts = [s.nnz_removed_trivial, s.nnz_removed_fast, s.nnz_removed_primal_propagation, s.nnz_removed_parallel_rows, s.nnz_removed_parallel_cols]
        tot = sum(ctypes.c_int64(v).value for v in parts)
        if tot != lp.nnz - rp.nnz: out.append(f"removed nonzeros per reduction sum to {tot}, not {lp.nnz - rp.nnz}")
        for v, f in ((parts[2], "primal_propagation"), (parts[3], "parallel_rows"), (parts[4], "parallel_cols")):
            if v and not getattr(c.st, f): out.append(f"{f} disabled but credited with {ctypes.c_int64(v).value} nonzeros")
        if parts[1] and not (c.st.ston_cols or c.st.dton_eq): out.append("fast reductions disabled but credited")
        if not 0 <= s.time_presolve < 1e4 or not 0 <= s.time_init < 1e4: out.append("times implausible")
        o = c.R.p.contents.sol.contents
        if (o.dim_x, o.dim_y) != (lp.n, lp.m): out.append("solution dimensions wrong")
    return out
CALLS = ("remove_ston_cols", "remove_dton_eq_rows", "simple_dual_fix", "check_activities", "propagate_primal", "remove_parallel_rows", "remove_parallel_cols")
def o_settings(c):
    """with everything off, a problem without trivial structure is returned as it is; disabled reductions leave no trace"""
    lp = c.lp; out = []
    cnt = [np.diff(lp.Ap), np.bincount(lp.Ai, minlength=lp.n)]
    off = c.lib.settings()
    for f in FLAGS: setattr(off, f, False)
    R = Run(c.lib, lp, off); s = R.run()
    if (cnt[0] >= 2).all() and (cnt[1] >= 1).all() and (lp.ub - lp.lb > 1e-6).all():
        if s != 0: out.append(f"every reduction disabled but status {s}")
        else:
            rp, o = R.reduced()
            if o != 0 or any(a.tobytes() != b.tobytes() for a, b in zip(lp.arrays(), rp.arrays())): out.append("every reduction disabled but the problem changed")
    R.free()
    return out + o_stats(c)
def hookf(bit):
    def f(c):
        L = c.lib.L; g = lambda n: ctypes.c_int.in_dll(L, n)
        g("hook_enable").value = bit; g("hook_kind").value = 0; g("hook_dead").value = 0
        c.start(); g("hook_enable").value = 0
        return [(ctypes.c_char * 512).in_dll(L, "hook_msg").value.decode()] if g("hook_kind").value else []
    f.hooked = True; f.__name__ = f"monitor{bit}"; return f
def o_limits(c):
    """whatever the limits, the result is equivalent"""
    return o_objective(c) + o_primal(c) + o_wellformed(c)
def o_equiv(c):
    out = o_objective(c)
    if not out: out = o_primal(c)
    if not out: out = o_infeasible(c) + o_unbounded(c)
    if not out: out = o_dual(c)
    if not out: out = o_stationarity(c)
    if not out: out = o_wellformed(c)
    return out
def o_memory(c):
    """exercises every entry point; only crashes and sanitizer reports count"""
    c.start()
    if c.status in (0, 1): o_repeat(c)
    else:
        F = Run(c.lib, c.lp, c.st); F.free()   # constructed, never run
    return []
