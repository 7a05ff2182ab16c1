#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property on /repo's current tree.
   check.py --replay FILE                     : re-run a recorded failing input.
1. contracts: lib/prove.py parses the current sources and discharges the obligations of the functions the property depends on;
2. bounded stand-in: the compiled library on generated problems (never counted as proved).
Exit 0 quiet, 1 with a VIOLATION line; nothing else."""
import os, sys, json, time, hashlib, subprocess
VT = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(VT))) and not os.environ.get("PSLPV_REEXEC"):
    os.environ["PSLPV_REEXEC"] = "1"; os.execv(VT, [VT] + sys.argv)
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[k] = "1"
sys.path.insert(0, os.path.join(HERE, "lib"))

def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("known:"): out.append(l[6:].strip())
    return out
def save_replay(pid, d):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    s = json.dumps(d, indent=1); f = os.path.join(HERE, "replays", f"{pid}_{hashlib.sha1(s.encode()).hexdigest()[:10]}.json")
    open(f, "w").write(s); return f
def bounded_so(cfg):
    import pslp
    if any(getattr(o, "hooked", 0) for o in cfg["oracles"]):
        so = pslp.build_hooked()
        if so: return so, cfg, "production build with the runtime monitor linked in"
        cfg = dict(cfg, oracles=cfg["fallback"]); return pslp.build(), cfg, "production build (the monitor does not fit these sources: API-level oracles instead)"
    return pslp.build(), cfg, "production build"
def asan_run(pid, seed, n, tmax):
    """memory-safety driver: the same stand-in with an address/undefined-behaviour instrumented library, in a process of its own"""
    import pslp
    san = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    so = pslp.build("asan", extra=["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"])
    log = os.path.join(pslp.scratch(), "san")
    env = dict(os.environ, LD_PRELOAD=san, ASAN_OPTIONS=f"detect_leaks=0:abort_on_error=1:log_path={log}:allocator_may_return_null=1", UBSAN_OPTIONS=f"halt_on_error=1:abort_on_error=1:print_stacktrace=1:log_path={log}")
    p = subprocess.run([VT if os.path.exists(VT) else sys.executable, os.path.join(HERE, "lib", "bounded.py"), so, pid, str(seed), str(n), str(tmax)], env=env, capture_output=True, text=True)
    try: r = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception: r = dict(evaluations=0, distinct_nontrivial=0, families={}, samples=[], failures=[], errors=1, error_samples=[p.stderr[-300:]])
    if r["failures"]:
        import glob
        rep = max([open(f, errors="replace").read() for f in glob.glob(log + "*")] + [""], key=len)[:3000]
        for f in r["failures"]: f[4].append(rep)
    return r
def main():
    t0 = time.time()
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    thorough = tier == "thorough"
    import props, bounded
    viol = []; notes = []
    # ---- 1. contracts ----
    pr = dict(obligations=0, discharged=0, functions=[], failed=[], undecided=[], solver_s=0.0, assumptions=[], backends={})
    try:
        import prove
        pr = prove.run(pid, seed, thorough)
    except ModuleNotFoundError as e:
        if e.name != "prove": raise
    except Exception as e:
        import traceback; traceback.print_exc(); notes.append(f"proof stage stopped: {e!r}"[:300])
    # ---- 2. bounded ----
    cfg = props.B[pid]; n = int(cfg["n"] * (20 if thorough else cfg.get("quick", 3))); tmax = 600 if thorough else 45
    br = dict(evaluations=0, distinct_nontrivial=0, families={}, samples=[], failures=[], errors=0); how = ""
    try:
        if cfg.get("asan"): br = asan_run(pid, seed, n, tmax); how = "library built with -fsanitize=address,undefined"
        else:
            so, cfg2, how = bounded_so(cfg)
            br = bounded.run(so, cfg2, seed, n, tmax)
            if pr["failed"] and not br["failures"]:
                b2 = bounded.run(so, dict(cfg2, tag=cfg2["tag"] + "deep"), seed, n * 4, 120)   # the contracts say something is wrong: look harder for an input
                br["failures"] = b2["failures"]; br["evaluations"] += b2["evaluations"]; br["distinct_nontrivial"] += b2["distinct_nontrivial"]
                if b2["failures"]: cfg = dict(cfg, tag=cfg["tag"] + "deep")
    except Exception as e:
        import traceback; traceback.print_exc(); notes.append(f"bounded stage stopped: {e!r}"[:300])
    if br["failures"]:
        idx, fam, lpj, stj, out = br["failures"][0]
        d = dict(property=pid, kind="input", family=fam, seed=seed, index=idx, tag=cfg["tag"], problem=lpj, settings=stj, oracle=out, failed_obligations=[f["name"] for f in pr["failed"]][:5], command=f"python3 check.py --replay <this file>")
        if not cfg.get("asan"):
            try:
                import pslp
                lib = pslp.Lib(so); l2, s2 = silent(lambda: bounded.shrink(lib, cfg2, pslp.LP.from_json(lpj), bounded.st_from(lib, stj), 7, 20)) if not any("crash" in o or "return" in o for o in out) else (None, None)
                if l2 is not None: d["shrunk"] = l2.to_json()
            except Exception as e: notes.append(f"shrinking stopped: {e!r}"[:200])
        viol.append((save_replay(pid, d), "", out[0]))
    elif pr["failed"]:
        for f in pr["failed"]:
            d = dict(property=pid, kind="obligation", obligation=f["name"], function=f["function"], solver=f.get("reason"), model=f.get("model"), concrete=f.get("concrete"))
            if f.get("concrete"): viol.append((save_replay(pid, d), "", f["name"])); break
        else:
            hard = [f for f in pr["failed"] if f.get("definite")]
            if hard:
                f = hard[0]
                viol.append((save_replay(pid, dict(property=pid, kind="obligation", obligation=f["name"], function=f["function"], solver=f.get("reason"), model=f.get("model"), others=[g["name"] for g in pr["failed"]][:20])), " no-failing-input-found", f["name"]))
            else: notes.append("undischarged, no counterexample: undecided: " + "; ".join(f["name"] for f in pr["failed"][:5]))
    ev = dict(property=pid, tier=tier, seed=seed, level=props.LEVEL.get(pid, "proof"), coverage=dict(
        obligations=pr["obligations"], discharged=pr["discharged"], checker_cmd=f"python3 check.py {pid}" + (" --tier thorough" if thorough else ""),
        trusted_base=props.TRUSTED, functions=pr["functions"], back_ends=pr["backends"], solver_s=round(pr["solver_s"], 2), undecided=pr["undecided"], vacuity=pr.get("vacuity", {}),
        bounded=dict(label="bounded stand-in, not proved", build=how, evaluations=br["evaluations"], distinct_nontrivial=br["distinct_nontrivial"], families=br["families"], oracle_errors=br["errors"],
            bound="generated problems of at most a few hundred rows and columns (families in lib/lpgen.py), case counts fixed by the seed"),
        evaluations=br["evaluations"], distinct_nontrivial=br["distinct_nontrivial"], rule="families and settings policies of lib/props.py; distinct by data, non-trivial when presolve changed the problem or reached a verdict",
        samples=br["samples"], notes=notes), assumptions=pr["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    for k in known():
        if k.startswith(f"property={pid} "): print("KNOWN-FINDING: " + k)
    print(f"{pid}: {pr['discharged']}/{pr['obligations']} obligations in {len(pr['functions'])} functions, {br['evaluations']} bounded cases, {round(time.time()-t0,1)} s" + ("; " + "; ".join(notes) if notes else ""))
    for f, tail, why in viol:
        print(f"# {why}"); print(f"VIOLATION property={pid} replay={f}{tail}")
    return 1 if viol else 0
def silent(f):
    sys.stdout.flush(); k = os.dup(1); d = os.open(os.devnull, os.O_WRONLY); os.dup2(d, 1)
    try: return f()
    finally: os.dup2(k, 1); os.close(k); os.close(d)
def replay(path):
    d = json.load(open(path)); pid = d["property"]
    if d["kind"] != "input": print(json.dumps(d, indent=1)); import prove; return prove.replay(d)
    import props, bounded, pslp, numpy as np
    cfg = props.B[pid]; so, cfg, how = bounded_so(cfg); lib = pslp.Lib(so); rc = 0
    for k in ("problem", "shrunk"):
        if k not in d: continue
        lp = pslp.LP.from_json(d[k]); st = bounded.st_from(lib, d["settings"])
        out, _ = silent(lambda: bounded.judge(lib, cfg, lp, st, bounded.case_rng(d["seed"], d["tag"], d["index"]) if k == "problem" else np.random.default_rng(7)))
        print(k, "->", out or "quiet"); rc |= bool(out)
    return rc
if __name__ == "__main__": sys.exit(main())
