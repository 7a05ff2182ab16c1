#!/usr/bin/env python3
"""plant.py SPEC.py : developer tool (not used by any check). Takes a list P of planted bugs
dict(id, property, file, edits=[(old, new)], needs, breaks, demo=property whose oracle shows it, asan=bool), applies each to a scratch
copy, checks that it builds and passes the stable tests, searches a failing input with that oracle, and writes seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
FIND = r'''
import sys, json; sys.path.insert(0, "%(V)s/lib")
import bounded, pslp, props, os, glob, importlib.util
spec = importlib.util.spec_from_file_location("ck", "%(V)s/check.py"); ck = importlib.util.module_from_spec(spec); os.environ["PSLPV_REEXEC"]="1"; spec.loader.exec_module(ck)
cfg = props.B["%(pid)s"]; n = %(n)d
if %(asan)d: r = ck.asan_run("%(pid)s", %(seed)d, n, 300); so = None
else: so, cfg, _ = ck.bounded_so(cfg); r = bounded.run(so, cfg, %(seed)d, n, 300)
out = None
if r["failures"]:
    i, f, lp, st, why = r["failures"][0]; out = dict(problem=lp, settings=st, why=why[0], seed=%(seed)d, index=i, tag=cfg["tag"], asan=%(asan)d, property="%(pid)s")
    if so and not any(w in why[0] for w in ("crash", "return")):
        lib = pslp.Lib(so)
        l2, s2 = ck.silent(lambda: bounded.shrink(lib, cfg, pslp.LP.from_json(lp), bounded.st_from(lib, st), 7, 40))
        if ck.silent(lambda: bounded.judge(lib, cfg, l2, s2, bounded.np.random.default_rng(7)))[0]: out["problem"] = l2.to_json(); out["shrunk"] = 1
print("RES" + json.dumps(out))
'''
def main():
    g = {}; exec(open(sys.argv[1]).read(), g); only = sys.argv[2:]
    for p in g["P"]:
        if only and p["id"] not in only: continue
        print("==", p["id"], p["property"], flush=True)
        w = tempfile.mkdtemp(prefix="plant_"); r = w + "/repo"
        try:
            sh(f"cp -a /repo {r}")
            ok = True
            for f, old, new in p["edits"]:
                t = open(f"{r}/{f}").read()
                if t.count(old) != 1: print("   edit does not apply", t.count(old), repr(old[:60])); ok = False; break
                open(f"{r}/{f}", "w").write(t.replace(old, new))
            if not ok: continue
            d = sh("git diff", cwd=r).stdout; open(w + "/p.diff", "w").write(d)
            assert not sh("git status --porcelain", cwd="/repo").stdout
            a = sh(f"git -C /repo apply {w}/p.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh {w}/t.json"); b = sh("git -C /repo checkout -- . && bash /opt/vp/build.sh")
            try: t = json.load(open(w + "/t.json")); base = json.load(open("/opt/vp/BASELINE.json")); nf = len(t["failed"]); np_ = len(t["passed"])
            except Exception: print("   build failed", (a.stdout + a.stderr)[-300:]); continue
            if np_ < 137: print("   tests notice it:", np_, t["failed"][:4]); continue
            o = None
            for seed, n in ((11, p.get("n", 30000)), (12, 5 * p.get("n", 30000))):
                x = sh(f"PSLP_REPO={r} /opt/veriftools/pyvenv/bin/python - <<'E'\n{FIND % dict(V=V, pid=p.get('demo', p['property']), n=n, seed=seed, asan=int(p.get('asan', False)))}\nE")
                l = [k for k in x.stdout.splitlines() if k.startswith("RES")]
                if not l: print("   ", (x.stdout + x.stderr)[-500:]); break
                o = json.loads(l[0][3:])
                if o: break
            if not o: print("   no failing input found"); continue
            print("   found:", o["why"][:150], "at", o["index"], "shrunk" if o.get("shrunk") else "")
            q = f"{V}/seeded/{p['id']}"; shutil.rmtree(q, ignore_errors=True); os.makedirs(q)
            open(q + "/patch.diff", "w").write(d); json.dump(o, open(q + "/case.json", "w"))
            for f in ("pslp.py", "lpsolve.py", "oracle.py", "lpgen.py", "bounded.py", "props.py"): shutil.copy(f"{V}/lib/{f}", q)
            shutil.copy(f"{V}/harness/hooks.c", q); shutil.copy(f"{V}/tools/demo_kit.py", q + "/demo.py")
            open(q + "/demo.sh", "w").write('#!/bin/bash\n# builds /repo\'s current sources in a scratch directory and runs one problem through them\nD="$(cd "$(dirname "$0")" && pwd)"\nPSLP_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/veriftools/pyvenv/bin/python "$D/demo.py"\n')
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(q + "/meta.json", "w"), indent=1)
            c0 = sh(f"bash {q}/demo.sh", cwd="/repo"); c1 = sh(f"bash {q}/demo.sh", cwd=r)
            print("   demo: clean", c0.returncode, "patched", c1.returncode, (c1.stdout + c1.stderr).strip()[-120:])
            if c0.returncode or not c1.returncode: shutil.rmtree(q); print("   dropped"); continue
            if not p.get("demo") or p["demo"] == p["property"] or True:
                ck = sh(f"PSLP_REPO={r} VERIF_SEED=1 python3 {V}/check.py {p['property']}"); print("   check:", ck.returncode, ck.stdout.strip()[-160:])
        finally: shutil.rmtree(w, ignore_errors=True)
main()
