"""Bounded stand-in: run the compiled library on generated problems against an oracle, in parallel, deterministically.
Labelled bounded everywhere; nothing here counts as proved."""
import os, sys, time, json, signal, hashlib, struct, multiprocessing as mp
import numpy as np
import pslp, lpgen, oracle
from pslp import LP, Lib, FLAGS

LIM_SHIFT = (0, 1, 2, 3, 10, 1000); LIM_TIME = (60.0, 60.0, 0.0, 1e-9, -1.0, 1e-4)
def make_settings(lib, pol, rng):
    st = lib.settings()
    if pol == "default": pass
    elif pol == "random":
        for f in FLAGS: setattr(st, f, bool(rng.integers(0, 2)))
    elif pol == "mostly":
        for f in FLAGS: setattr(st, f, bool(rng.integers(0, 4)))
    elif pol == "none":
        for f in FLAGS: setattr(st, f, False)
    elif pol.startswith("only:"):
        for f in FLAGS: setattr(st, f, f in pol[5:].split("+"))
    elif pol.startswith("with:"):
        for f in FLAGS: setattr(st, f, bool(rng.integers(0, 2)) or f in pol[5:].split("+"))
    elif pol.startswith("without:"):
        for f in FLAGS: setattr(st, f, bool(rng.integers(0, 3)) and f not in pol[8:].split("+"))
    elif pol == "limits":
        for f in FLAGS: setattr(st, f, bool(rng.integers(0, 4)))
        st.max_shift = int(rng.choice(LIM_SHIFT)); st.max_time = float(rng.choice(LIM_TIME))
    return st
def st_json(st): return {k: getattr(st, k) for k in list(FLAGS) + ["max_shift", "max_time", "verbose"]}
def st_from(lib, d):
    st = lib.settings()
    for k, v in d.items(): setattr(st, k, v)
    return st
def case_rng(seed, tag, idx): return np.random.default_rng([seed, int.from_bytes(hashlib.sha256(tag.encode()).digest()[:4], "big"), idx])
def make_case(lib, cfg, seed, idx):
    rng = case_rng(seed, cfg["tag"], idx)
    fams = cfg["families"]; r = rng.random(); acc = 0; tot = sum(fams.values())
    for f, w in fams.items():
        acc += w / tot
        if r < acc: break
    lp = lpgen.FAM[f](rng); pols = cfg["settings"]; pol = pols[int(rng.integers(0, len(pols)))]
    return f, lp, make_settings(lib, pol, rng), rng
def judge(lib, cfg, lp, st, rng):
    c = oracle.Case(lib, lp, st, rng); c.start_reduced = False
    try:
        out = []
        for o in cfg["oracles"]:
            out += o(c)
            if out: break
        nontriv = c.R is not None and (c.status not in (0,) )
        return out, nontriv
    finally: c.close()
def shrink(lib, cfg, lp, st, seedt, budget=40):
    """greedy reduction that keeps some failure of the same first words"""
    t0 = time.time()
    def bad(d, st):
        q = LP.from_dense(*d)
        try: return bool(judge(lib, cfg, q, st, np.random.default_rng(seedt))[0])
        except Exception: return False
    d = [lp.dense(), lp.lhs, lp.rhs, lp.lb, lp.ub, lp.c]
    if lp.m * lp.n > 3000 or not bad(d, st): return lp, st
    ch = True
    while ch and time.time() - t0 < budget:
        ch = False
        for i in reversed(range(d[0].shape[0])):
            if d[0].shape[0] <= 1 or time.time() - t0 > budget: break
            e = [np.delete(d[0], i, 0), np.delete(d[1], i), np.delete(d[2], i)] + d[3:]
            if bad(e, st): d = e; ch = True
        for j in reversed(range(d[0].shape[1])):
            if d[0].shape[1] <= 1 or time.time() - t0 > budget: break
            e = [np.delete(d[0], j, 1), d[1], d[2]] + [np.delete(a, j) for a in d[3:]]
            if bad(e, st): d = e; ch = True
        for idx in np.argwhere(d[0]):
            if time.time() - t0 > budget: break
            for v in (0, 1, -1):
                if d[0][tuple(idx)] == v: break
                e = [d[0].copy()] + d[1:]; e[0][tuple(idx)] = v
                if bad(e, st): d = e; ch = True; break
    return LP.from_dense(*d), st
def _worker(wid, nw, so, cfg, seed, n, tmax, cur, q, ex):
    os.environ["OMP_NUM_THREADS"] = "1"
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    lib = Lib(so); t0 = time.time(); done = nt = 0; seen = set(); fams = {}; fails = []; smp = []; errs = []
    for idx in range(wid, n, nw):
        if time.time() - t0 > tmax or ex.value: break
        cur[wid] = idx
        try:
            f, lp, st, rng = make_case(lib, cfg, seed, idx)
            out, nontriv = judge(lib, cfg, lp, st, rng)
        except Exception as e: out, nontriv = [], False; errs.append(repr(e)[:200])
        done += 1; fams[f] = fams.get(f, 0) + 1
        h = hashlib.sha1(b"".join(a.tobytes() for a in lp.arrays())).digest()[:8]
        if nontriv and h not in seen: nt += 1; seen.add(h)
        if len(smp) < 1 and nontriv and lp.nnz < 40: smp.append({"family": f, "lp": lp.to_json(), "settings": st_json(st)})
        if out:
            fails.append((idx, f, lp.to_json(), st_json(st), out))
            if len(fails) >= cfg.get("stop_after", 1): ex.value = 1; break
    cur[wid] = -2
    q.put((wid, done, nt, fams, fails, smp, errs[:3], len(errs)))
def run(so, cfg, seed, n, tmax, nw=None, hang=90):
    """-> dict(evaluations, distinct_nontrivial, failures=[...], samples)"""
    nw = nw or min(8, os.cpu_count() or 4)
    ctx = mp.get_context("fork"); cur = ctx.Array("q", [-1] * nw, lock=False); ex = ctx.Value("i", 0, lock=False); q = ctx.SimpleQueue()
    ps = [ctx.Process(target=_worker, args=(w, nw, so, cfg, seed, n, tmax, cur, q, ex), daemon=True) for w in range(nw)]
    sys.stdout.flush()
    for p in ps: p.start()
    res = {}; fails = []; last = list(cur); t_last = [time.time()] * nw
    lib = None
    while len(res) < nw:
        while not q.empty():
            r = q.get(); res[r[0]] = r
        for w, p in enumerate(ps):
            if w in res: continue
            if cur[w] != last[w]: last[w] = cur[w]; t_last[w] = time.time()
            dead = not p.is_alive(); hung = time.time() - t_last[w] > hang and cur[w] >= 0
            if dead and q.empty() and not hung:
                time.sleep(.2)
                if not q.empty(): continue
            if dead or hung:
                idx = cur[w]
                if hung: p.kill()
                if idx >= 0:
                    lib = lib or Lib(so); f, lp, st, rng = make_case(lib, cfg, seed, idx)
                    fails.append((idx, f, lp.to_json(), st_json(st), ["the library did not return" if hung else f"the library crashed (exit code {p.exitcode})"]))
                ex.value = 1; res[w] = (w, 0, 0, {}, [], [], [], 0)
        time.sleep(.02)
    for p in ps: p.join(5)
    out = dict(evaluations=sum(r[1] for r in res.values()), distinct_nontrivial=sum(r[2] for r in res.values()), families={}, samples=[])
    for r in res.values():
        fails += r[4]; out["samples"] += r[5]
        for k, v in r[3].items(): out["families"][k] = out["families"].get(k, 0) + v
    out["errors"] = sum(r[7] for r in res.values()); out["error_samples"] = [e for r in res.values() for e in r[6]][:3]
    out["samples"] = out["samples"][:2]; out["failures"] = sorted(fails, key=lambda t: t[0]); return out
if __name__ == "__main__":   # so property seed n tmax : used for the sanitizer build
    import props
    so, pid, seed, n, tmax = sys.argv[1:6]
    keep = os.dup(1); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    r = run(so, props.B[pid], int(seed), int(n), float(tmax))
    os.write(keep, (json.dumps(r) + "\n").encode())
